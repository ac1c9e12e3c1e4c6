#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=hook)))

LEAVES = ["lib_equal.go", "lib_gt.go", "lib_gte.go", "lib_lt.go", "lib_lte.go", "lib_like.go", "lib_ilike.go", "lib_in.go", "lib_isnull.go"]

prop("C01", "Composed conditions keep the boolean meaning of their composition",
  "A filter composed with And, Or, Not, NewGroup, GroupAND/GroupOR and successive Where calls selects exactly the rows its construction says: c.And(d1..dn) is c and d1 and .. and dn, c.Or(d1..dn) is c or (d1 and .. and dn), NewGroup(j, c1..cn) joins all with j, and Not negates the whole condition it is applied to (under SQL three-valued logic). "
  "No nesting depth, order of composition, grouping or negation may change, drop or duplicate a part through missing brackets, operator precedence or flattening. "
  "Empty groups are neutral, wherever they appear.",
  ["inputs", "histories"],
  "every tree of compositions (functions and methods alike) over any conditions, to any depth and width, in every kind of statement that takes a filter",
  "The tests compare about forty hand-picked two- or three-level compositions with exact strings; the flattening logic decides case by case over pairs (what is there, what is added), and the cases they leave out are exponentially many.",
  ["group.go", "logical.go", "operations.go", "where.go"] + LEAVES,
  [("flattening or bracketing when a condition joins a group", "group.go: addConditions/addSingleCondition/addGroup"),
   ("brackets of nested groups and negation at rendering", "group.go: Render/RenderSQL/encloseNested"),
   ("function and method forms", "operations.go, logical.go, And/Or methods of every lib_*.go")],
  ["Condition.Render/RenderSQL + Values", "BuildQueryAndParams of select, count, update, delete"],
  [dict(name="Group.conditions / joinType / negate", meaning="the flat list with a join operator per element that encodes the boolean tree", where="group.go")])

prop("C02", "Each condition expresses the comparison it is named after, on its own field",
  "EqualTo, Less, LessOrEqual, GreaterThan, GreaterOrEqual, Contains (LIKE %v%), IContains (ILIKE %v%), In and IsNull render exactly the comparison of the given field with the given value, and negated ones the complement of it. "
  "The field is named by its alias when it has one different from its name, else qualified by its table when it has one, and never as an alias definition. "
  "This holds for every value, for every way to create the condition (functions and FieldName methods) and in both placeholder styles; In over an empty list matches nothing, negated everything.",
  ["inputs"],
  "all leaf conditions, all field specifications (plain, table-qualified, aliased), all values, negated or not",
  "Each lib_*_test.go checks its operator with one or two plain fields and simple values; combinations of qualified or aliased field, negation, placeholder style and unusual values are not covered.",
  LEAVES + ["field_definition.go", "field_name.go", "value.go"],
  [("rendering of each operator", "lib_*.go: Render/RenderSQL"), ("field reference", "value.go: RenderSpec, field_definition.go: RenderField")],
  ["Condition.Render(n), RenderSQL(), Values()"])

prop("C03", "Numbered placeholders and parameters correspond one to one, in order",
  "In every query built without error the placeholders are exactly $1..$n in order of appearance, n is the number of returned parameters, and parameter k is the value given for the place where $k stands. "
  "A clause rendered with start count s uses exactly $s+1..$s+m in order of appearance, m being the length of its Values. "
  "This holds for any number of conditions, IN lists, set values, offsets and limits, well beyond nine parameters.",
  ["inputs", "histories"],
  "every statement kind and clause, any number and kind of conditions and values, any start count",
  "Tests have at most a few parameters and never put a multi-value or zero-value condition before another one inside nested groups of every statement kind; counts crossing ten are never reached.",
  ["group.go", "select_base.go", "select_many.go", "select_single.go", "count.go", "update.go", "delete.go", "insert.go", "limiter.go"] + LEAVES,
  [("running parameter count through the group", "group.go: Render"), ("offset/limit numbers after filter", "select_many.go, limiter.go"), ("SET before WHERE numbering", "update.go: fieldsAndValues")],
  ["BuildQueryAndParams", "Render(n) + Values()"])

prop("C04", "Question-mark rendering equals the numbered one",
  "For every condition, filter, limiter and select builder, RenderSQL yields the same SQL as Render(s) for every s >= 0, with each $k replaced by ?, and both take the same Values in the same order. "
  "BuildQueryAndParams of a select builder returns the SQL of Render(0) and the parameters of Values.",
  ["inputs", "histories"],
  "every condition tree, select builder (base, many, single) and limiter, every start count",
  "The two renderings are separate copies of the code in every condition and builder; tests exercise them with different examples and never compare them on the same object beyond a few.",
  ["group.go", "where.go", "limiter.go", "select_base.go", "select_many.go", "select_single.go"] + LEAVES,
  [("duplicated Render / RenderSQL pairs", "every Condition, group.go, limiter.go, select_*.go")],
  ["Render(n), RenderSQL(), Values(), BuildQueryAndParams()"])

prop("C05", "Builders and conditions are immutable",
  "No call changes what an existing builder, condition, group, field list or half-built join yields: deriving from an object, in any order and however many times, building or rendering it, or modifying a slice of conditions, fields, values or orderings that was passed to or returned from it (a list of values to compare with stays the caller's) leaves its SQL and parameters as they were. "
  "Several objects derived from the same one never see each other's additions. "
  "Rendering the same object repeatedly always yields the same result.",
  ["histories"],
  "every history of derivations with any live object as the receiver at each step",
  "Tests follow linear chains and check the end result; two derivations from one ancestor with spare slice capacity, a reused half-built join or a scribbled argument slice are never tried.",
  ["group.go", "where.go", "select_base.go", "select_many.go", "select_single.go", "join_unfinished.go", "insert.go", "update.go", "delete.go", "fields.go", "limiter.go", "table_ident.go", "field_definition.go"],
  [("value receivers over shared slices", "all builders"), ("full-slice-expression before append, copies in On/SetValues/Conditions", "group.go, select_*.go, insert.go, update.go, join_unfinished.go")],
  ["SQL and parameters of every live object after every step"],
  [dict(name="joins, order, setValues, conditions arrays", meaning="backing arrays possibly shared between builders", where="select_base.go, select_many.go, insert.go, update.go, group.go")])

prop("C06", "Shared builders may be used from several goroutines without locking",
  "Goroutines that concurrently derive from, build or render the same builders and conditions obtain exactly what each would obtain alone, under every interleaving, and what the shared objects yield stays unchanged. "
  "No such use is a data race.",
  ["schedules"],
  "every interleaving of two or more goroutines using shared builders, conditions, groups, field lists and half-built joins",
  "No test starts a goroutine; a lost update needs two goroutines at particular points of two derivations.",
  ["group.go", "select_base.go", "select_many.go", "join_unfinished.go", "insert.go", "update.go", "value.go", "fields.go"],
  [("no shared mutable state: copy on derive", "all builders and groups"), ("no package-level mutable state", "whole package")],
  ["results of each goroutine and of the shared objects afterwards", "race detector"])

prop("C07", "Nothing dangerous or malformed is built: no filter, table or data is an error",
  "BuildQueryAndParams of an UPDATE or DELETE without any effective filter condition (empty groups do not count), of an UPDATE or INSERT without field values, or of any of these with an empty table name returns an error that wraps query.Error and an empty SQL string, whatever calls led to the builder. "
  "When filter, table and data are present it returns no error. "
  "An UPDATE or DELETE built without error always has a WHERE clause.",
  ["inputs", "histories"],
  "every history of Where/Set/Values/conversion calls leading to an insert, update or delete builder",
  "Tests check the bare empty builder only; Where() with nothing, with empty, nested-empty or negated-empty groups, or builders converted from unfiltered selects, are not covered.",
  ["update.go", "delete.go", "insert.go", "group.go", "select_base.go", "select_many.go"],
  [("guards at the start of BuildQueryAndParams", "update.go, delete.go, insert.go"), ("empty groups are dropped on add", "group.go: withoutEmptyGroups")],
  ["BuildQueryAndParams results"])

prop("C08", "SELECT states exactly what was requested",
  "The SQL built by a select builder names exactly the requested fields in order with their aliases (the last Fields call wins; * when none), the base table with its alias, all joins in order, all conditions, and for many-row selects the ordering terms in the order they were added, the last offset if positive and the last limit if positive; a single-row select always ends with LIMIT 1. "
  "Every builder method changes its own part only, whatever the order of calls and across conversions between base, many and single.",
  ["inputs", "histories"],
  "every sequence of builder calls on base, many and single selects",
  "Tests cover a few fixed call orders per builder; interactions (Fields after Where, OrderBy in several calls, Limit reset, conversions in between) are combinatorial.",
  ["select_base.go", "select_many.go", "select_single.go", "fields.go", "table_ident.go", "field_definition.go", "ordering.go", "limiter.go"],
  [("clause assembly", "select_base.go/select_many.go/select_single.go: BuildQueryAndParams"), ("replace vs append", "fields.go: Fields; select_many.go: OrderBy/Offset/Limit")],
  ["BuildQueryAndParams, Render, FieldDefinitions"])

prop("C09", "INSERT and UPDATE pair every column with its own value",
  "INSERT lists the columns in the order their values were added and the k-th column receives the k-th parameter; UPDATE assigns to each column, in order, its own value, before the parameters of its filter. "
  "Values added in several calls accumulate in order, and the table and filter are the requested ones. "
  "A field value that yields other than exactly one parameter is an error, never a shifted pairing.",
  ["inputs", "histories"],
  "any number of field values over any number of Set/Values calls, with any values (multi-valued ones included), in any entry point",
  "Tests insert or set one or two scalars in one call; multi-valued values, many columns, several calls and filters with many parameters are not covered.",
  ["insert.go", "update.go", "value.go"],
  [("columns and placeholders assembly", "insert.go: BuildQueryAndParams; update.go: fieldsAndValues"), ("accumulation", "insert.go: Values; update.go: Set")],
  ["BuildQueryAndParams, SetValues"])

prop("C10", "Values reach the parameters exactly as given or as they convert themselves",
  "Plain values (zero values, nil, byte slices, times, structs, pointers) are passed as they are; a driver.Valuer is passed as its Value() result, nil valuers as nil, and one whose Value() fails is never replaced by some other value; a ValueProvider passed to FieldName.Value or to a condition is passed as its DatabaseValue(). "
  "In turns a slice or array of any element type (not bytes) into one parameter per element in order, each converted by the same rules, and a single value into one parameter. "
  "Contains and IContains pass the text between two % signs unchanged.",
  ["inputs"],
  "all value kinds, alone, inside lists of any length, through every condition and field value constructor",
  "value_test.go tries about a dozen values through FieldValue only; values through In, comparisons, FieldDefinition.Value and typed slices are not crossed.",
  ["value.go", "lib_in.go", "lib_like.go", "lib_ilike.go", "field_name.go", "field_definition.go"],
  [("conversion switch", "value.go: Values/translateValuer"), ("list expansion", "lib_in.go: Values")],
  ["Values(), parameters of BuildQueryAndParams"])

prop("C11", "Field specifications parse into name, table and alias exactly as documented",
  "name, table.name, name as alias and table.name as alias (AS in any letter case, any whitespace between words) give exactly these parts, from strings and FieldNames alike; FieldOrError rejects with an error wrapping query.Error, and Field panics on, everything else. "
  "A FieldDefinition is returned unchanged. Of and As replace only the table or the alias, and the select specification and the reference rendered from the parts use exactly them.",
  ["inputs"],
  "all strings, all field definitions",
  "The tests list about twenty literals; dangling or extra dots, odd whitespace, keyword-like names and too few or too many words are mostly absent.",
  ["field_definition.go", "field_name.go", "table_ident.go", "table_name.go"],
  [("parser", "field_definition.go: FieldOrError/mustField/Field"), ("renderers", "field_definition.go: RenderSpec/RenderField/RenderTableSpec")],
  ["FieldOrError, Field, FieldName.Field, accessors and renderers"])

prop("C12", "Table specifications parse into name and alias exactly as documented",
  "name, name as alias (AS in any letter case) and name alias, with any whitespace, give exactly these parts, from strings and TableNames alike, an alias equal to the name being no alias; TableOrError rejects with an error wrapping query.Error, and Table panics on, everything else. "
  "A TableIdent is returned unchanged; As replaces only the alias, RenderFrom renders name AS alias (name alone without alias), and fields made from the ident are qualified by its alias, else by its name.",
  ["inputs"],
  "all strings, all table idents",
  "The tests list a handful of literals.",
  ["table_ident.go", "table_name.go"],
  [("parser", "table_ident.go: TableOrError/Table"), ("As/RenderFrom/Field", "table_ident.go")],
  ["TableOrError, Table, TableName.Ident, accessors, RenderFrom, Field"])

prop("C13", "Joins appear exactly as requested",
  "Every join, whichever way it was started (table name, table ident, any select builder, join type), appears once, in the order requested, with the requested kind (INNER, LEFT, RIGHT, FULL), the joined table with its alias, and ON <left table>.<left field>=<right table>.<right field> of exactly the fields given for that join. "
  "Adding a join changes nothing else of the builder.",
  ["inputs", "histories"],
  "every sequence of joins of every kind over every builder and entry point",
  "Tests join once or twice, mostly inner joins from one entry point; the twenty-odd near-identical join methods are separate code.",
  ["join_tables.go", "join_type.go", "join_condition.go", "join_unfinished.go", "select_base.go", "select_many.go", "select_single.go", "table_ident.go", "table_name.go"],
  [("entry points", "Join/InnerJoin/LeftJoin/RightJoin/FullJoin of five types, TableJoinType.Tables"), ("finalisation", "join_unfinished.go: On")],
  ["RenderFrom, BuildQueryAndParams"])

prop("C14", "COUNT counts over the same source and filter as the select it came from",
  "A count query derived from a table, a base or a many-row select has the same FROM, joins and filter as that select, and the filter's parameters, and ignores its field list, ordering, offset and limit. "
  "It counts the requested plain or table-qualified field, or * when none was requested; a field requested together with an alias is counted by its column or by its alias.",
  ["inputs", "histories"],
  "every select a count can be derived from",
  "There is no count test file; only one or two incidental uses.",
  ["count.go", "select_base.go", "select_many.go", "table_ident.go"],
  [("reuse of base builder", "count.go: Count/BuildQueryAndParams")],
  ["CountBuilder.BuildQueryAndParams, RenderFrom"])

prop("C15", "Conversions between builders carry the filter and the table over unchanged",
  "Update and Delete derived from a select act on its base table with a filter equivalent to the select's filter, with the same values; InsertInto on its base table. "
  "Single, Many, Offset, Limit, OrderBy and the From-base constructors keep the fields, table, joins and filter of the builder they start from.",
  ["inputs", "histories"],
  "every select builder with any filter, every conversion",
  "Conversions of filtered selects are tested with single conditions at most; OR-composed, negated or multi-part filters are re-added to a new group by the conversion and may change their meaning.",
  ["select_base.go", "select_many.go", "select_single.go", "where.go", "group.go"],
  [("re-adding of the condition list", "select_base.go/select_many.go/select_single.go: Update/Delete"), ("embedding", "Single/Many")],
  ["BuildQueryAndParams of source and derived builder"])

prop("C16", "Re-qualifying conditions changes the field of matching ones and nothing else",
  "ApplyFieldTable gives a copy in which every condition, at any nesting depth, has its field moved to the given table (an alias stays); ApplyFieldSpec gives a copy in which exactly the conditions on a field of that name use the given definition. "
  "Operators, values, negation, join operators and structure stay as they were, and so does the original. Sorting terms and field values follow the same rule.",
  ["inputs", "histories"],
  "all condition trees and all leaf kinds, any specification, any sequence of re-qualifications",
  "Tests apply it once to single leaves of some kinds; groups, negated leaves, mixed matches and repeated application are not covered.",
  ["group.go", "where.go", "value.go", "ordering.go", "field_definition.go"] + LEAVES,
  [("per-leaf copies", "ApplyFieldTable/ApplyFieldSpec in every lib_*.go, value.go"), ("recursion", "group.go, where.go")],
  ["Render/Values before and after"])

prop("C17", "Ordering terms are exact, and validated field names are safe to use",
  "ASC, DESC and OrderBy produce the field reference followed by the requested direction (ASC by default) and accept exactly the names Validate accepts, panicking on all others and on unknown directions. "
  "Every name Validate accepts can be used in any field, condition, ordering or value constructor without panic and is rendered verbatim; Validate rejects empty names and names with quotes, whitespace of any kind, leading or trailing dots or more than one dot, with an error wrapping query.Error.",
  ["inputs"],
  "all strings as field names, all directions",
  "Tests list a few names; the agreement between Validate and the field parser over all strings is not tested.",
  ["ordering.go", "field_name.go", "field_definition.go"],
  [("Validate", "field_name.go"), ("constructors", "ordering.go: ASC/DESC/OrderBy")],
  ["Validate, ASC, DESC, OrderBy, FieldSorting.Render"])

prop("C18", "Negation is a flag that can be set, read back and cleared",
  "Negate(true) and Not yield a condition that IsNegate reports as negated and that means the complement; repeating it changes nothing, and Negate(false) yields the original meaning again. "
  "Join sets the operator that JoinType reports without changing meaning or negation, and negating does not change JoinType. "
  "RenderNegate is NOT exactly when IsNegate reports true and empty otherwise; RenderJoin is empty for a first condition and names the JoinType otherwise. "
  "The original object is never changed.",
  ["inputs", "histories"],
  "all leaf conditions and groups of any shape, any sequence of Not, Negate and Join calls",
  "Tests negate a leaf once; double negation, clearing, negated groups with one member, with brackets, nested or re-joined are not covered.",
  ["base.go", "group.go", "operations.go", "logical.go"] + LEAVES,
  [("flag handling", "base.go, Negate/Join in every lib_*.go and group.go"), ("rendering of negation", "group.go: Render/RenderSQL")],
  ["Render/RenderSQL, IsNegate, JoinType"])

prop("C19", "User-defined conditions work wherever built-in ones do",
  "A Condition implemented outside the package, with any number of parameters, may be used anywhere a built-in one may: alone, grouped, negated, in every statement. "
  "It is rendered by its own methods with the correct count of preceding parameters, appears exactly once where it was put, keeps its own negation, and its values appear at its placeholders.",
  ["inputs", "histories"],
  "all placements of external conditions with 0..n parameters among other conditions in all statements",
  "No test implements a Condition outside the package with several or no parameters inside groups.",
  ["group.go", "operations.go", "logical.go", "base.go", "where.go"],
  [("groups only use the Condition interface", "group.go")],
  ["Render start counts, BuildQueryAndParams"])

prop("C20", "Equivalent entry points build equivalent statements",
  "string, TableName and TableIdent arguments naming the same table, and the function, TableName-method and TableIdent-method forms of select, select-one, select-many, count, insert, update and delete, build the same statement from the same inputs. "
  "The same holds for the function and FieldName-method forms of conditions and values, the Join and InnerJoin/LeftJoin/RightJoin/FullJoin forms, and the And/Or functions and methods.",
  ["inputs"],
  "all entry points over all tables (with or without alias where a select takes one), filters and values",
  "Each entry point is tested on its own or not at all; agreement between them is not.",
  ["table_ident.go", "table_name.go", "select_base.go", "select_many.go", "select_single.go", "insert.go", "update.go", "delete.go", "field_name.go", "operations.go"],
  [("generic constructors", "SelectFrom/SelectManyFrom/SelectSingleFrom/InsertInto/Update/Delete"), ("shortcuts", "table_ident.go, table_name.go, field_name.go")],
  ["BuildQueryAndParams"])

prop("C21", "Limiter clauses and values agree",
  "A Limiter renders OFFSET if and only if its last offset is positive and LIMIT if and only if its last limit is positive, offset first, and its Values hold exactly these numbers in that order. "
  "Render(s) numbers them from s+1 and RenderSQL uses ?; Offset and Limit leave the original limiter as it was.",
  ["inputs", "histories"],
  "all sequences of Offset and Limit calls with any numbers, any start count",
  "Tests use a few combinations and do not cover resets or large numbers.",
  ["limiter.go"],
  [("three separate decisions", "limiter.go: Render/RenderSQL/Values")],
  ["Render, RenderSQL, Values"])

prop("C22", "UniqFieldNames keeps exactly the first occurrence of every name, in order",
  "The result has every distinct name of the input exactly once, in the order of first occurrence, compared exactly, and nothing else; the input slice is not changed and the result does not share memory with it.",
  ["inputs"],
  "all lists of field names",
  "Tests have a few lists; which duplicates survive in which order over all duplicate patterns is not settled by them.",
  ["utils.go"], [("nested scan", "utils.go: UniqFieldNames")], ["returned slice"])

prop("C23", "ValuesMap yields one value per key, or an error",
  "FieldValues gives exactly one field value per key, with that key's field and the value of that key, and no error, when all keys are valid field names. "
  "If any key is invalid it gives an error wrapping query.Error and no values, whatever the iteration order.",
  ["inputs"],
  "all maps, valid, invalid and mixed keys, all iteration orders",
  "Map iteration order is random and tests have one or two keys; mixed valid and invalid keys are hit in one order per run.",
  ["values_map.go", "field_name.go", "value.go"], [("loop over the map", "values_map.go: FieldValues")], ["FieldValues results; INSERT and UPDATE built from them"])

prop("C24", "Each Where call narrows the filter",
  "On every builder kind, after any previous calls, b.Where(c1..cn) filters by (filter of b) AND c1 AND .. AND cn when b already has a filter, and Where with no conditions or only empty groups changes nothing. "
  "The first Where on an unfiltered builder with one condition filters by exactly it; given several at once it chains them by the operator each carries (AND unless set by Or or Join).",
  ["histories", "inputs"],
  "every sequence of Where calls with any composed conditions on base, many, single, update and delete builders, and on converted ones",
  "Tests call Where once or twice with single leaves; sequences with OR-ed, negated and grouped conditions interact with the flattening logic.",
  ["where.go", "group.go", "select_base.go", "select_many.go", "select_single.go", "update.go", "delete.go"],
  [("Where of five builders", "select_*.go, update.go, delete.go"), ("GroupAND", "where.go, group.go")],
  ["BuildQueryAndParams after every call"])

prop("C25", "What builders, conditions and definitions report is what they render",
  "What the exported accessors say agrees with the SQL that is rendered: Operation, TableName, RenderFrom, Fields/FieldDefinitions/FieldList and Len of selects and field lists, SetValues of inserts and updates, Conditions() of a where clause (which, connected by the operators they report, mean what the clause renders and hold its values in order), "
  "FieldName of a comparison, JoinType and JoinCondition of a joiner, Direction and FieldName of a sorting term, FieldName, TableName and Alias of definitions, and the text of an Operation. "
  "They keep doing so after any sequence of further calls, and on builders whose statement cannot be built yet.",
  ["histories", "inputs"],
  "every builder kind, condition, clause and definition, after every sequence of calls",
  "Tests read an accessor right after the constructor that set it; whether it still tells the truth after conversions, narrowing, negation, redefinition or reuse is a matter of histories.",
  ["select_base.go", "select_many.go", "select_single.go", "update.go", "insert.go", "delete.go", "where.go", "group.go", "fields.go", "field_definition.go", "table_ident.go"] + LEAVES,
  [("accessors of builders", "select_*.go, update.go, insert.go, delete.go"), ("Conditions of a where clause", "where.go, group.go"), ("field lists", "fields.go")],
  ["the accessors next to BuildQueryAndParams / Render"])

prop("C26", "No value ever becomes part of the SQL text",
  "Values given to comparisons, In lists, field assignments and value maps are only ever passed as parameters: the SQL text of every statement and condition is the same, up to the number of elements of an In list, whatever the values are. "
  "No value - nil, empty, text full of quotes, placeholders, comments or keywords, bytes, a driver.Valuer, a provider, one that fails to convert - adds to, takes from or changes the text, alone or inside composed, negated, moved or extended conditions, in either placeholder style. A value that cannot be used is refused instead.",
  ["inputs", "histories"],
  "every value of every type, of every length, at every place that takes a value, in every composition of conditions and kind of statement",
  "Tests pass harmless literals and compare one exact string each; that the text does not depend on the value is a statement about pairs of values, and the special cases for nil, slices, valuers and patterns are where it would break.",
  LEAVES + ["value.go", "values_map.go", "insert.go", "update.go", "group.go"],
  [("placeholders instead of values", "every Render/RenderSQL of lib_*.go, insert.go, update.go"), ("conversion of values", "value.go")],
  ["SQL of BuildQueryAndParams, Render(n), RenderSQL() for pairs of values in the same place"])

prop("C27", "What is built depends only on the calls that built it",
  "The library keeps no memory: what a construction yields (SQL, parameters, error or not, every reported part) is a function of its own arguments. "
  "No earlier use of the package - the same thing built before, something spelt alike, a refused or failing input, any number of other statements - changes what is built later, and building the same twice yields the same.",
  ["histories"],
  "every history of earlier constructions, of any length, before any construction",
  "Each test builds one thing and compares; tests run in one fixed order in a fresh process. Package state such as caches, pools, interned names, counters or shared defaults shows only for particular pairs of inputs in a particular order, or after a certain number of uses.",
  ["field_definition.go", "field_name.go", "table_ident.go", "table_name.go", "value.go", "group.go", "select_base.go", "limiter.go", "join_tables.go"] + LEAVES,
  [("parsing of field and table specifications", "field_definition.go, table_ident.go"), ("shared definitions of package level", "base.go, op_type.go, keywords.go, lib_in.go")],
  ["results of the second construction after the first, on an instrumented build that can start afresh"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
