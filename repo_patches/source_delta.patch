From f08d6116206b36d2c0e7e9b9cff5e81e60d55d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:58 +0000
Subject: [PATCH 01/22] fix: SelectSingleBuilder.Fields keeps table, joins and
 conditions

---
 select_single.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/select_single.go b/select_single.go
index dd12af7..12c25ac 100644
--- a/select_single.go
+++ b/select_single.go
@@ -25,6 +25,7 @@ func (query SelectSingleBuilder) FieldList() string {
 // Fields returns a copy of SelectManyBuilder having mustField list to retrieve updated with a list of specified FieldDefinition`s.
 // Note all fields should be set one step as Fields call resets mustField added before.
 func (query SelectSingleBuilder) Fields(fieldSpecs ...FieldDefinition) (updated SelectSingleBuilder) {
+	updated = query
 	updated.BaseSelectBuilder = updated.BaseSelectBuilder.Fields(fieldSpecs...)
 	return updated
 }
-- 
2.43.0


From 57481bdb2617c4e354ad9ff72c4680444ca4e757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:00 +0000
Subject: [PATCH 02/22] fix: IsNull(...).Or(...) no longer panics

---
 lib_isnull.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib_isnull.go b/lib_isnull.go
index 3b7552e..f0b2eec 100644
--- a/lib_isnull.go
+++ b/lib_isnull.go
@@ -68,7 +68,7 @@ func (impl nullValue) And(conditions ...Condition) Condition {
 // Or generates new condition group which true on either initial condition is true or all of additional are true.
 // Implements Condition.
 func (impl nullValue) Or(conditions ...Condition) Condition {
-	return NewGroup(LogicalAND, nil).And(impl).Or(conditions...)
+	return NewGroup(LogicalAND).And(impl).Or(conditions...)
 }
 
 // IsNull generates Condition to select rows where specified field name value IS NULL'.
-- 
2.43.0


From 8b9b1f26b35b3ab778fa30c9dfcbd260fc3957e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:01 +0000
Subject: [PATCH 03/22] fix: builders derived from the same builder never share
 joins, ordering or values

---
 insert.go          | 1 +
 join_unfinished.go | 3 +++
 select_base.go     | 1 +
 select_many.go     | 2 ++
 select_single.go   | 1 +
 update.go          | 1 +
 6 files changed, 9 insertions(+)

diff --git a/insert.go b/insert.go
index 90cef5a..b5d6975 100644
--- a/insert.go
+++ b/insert.go
@@ -26,6 +26,7 @@ func (inserter InsertBuilder) SetValues() []FieldValue {
 // Values generates new InsertBuilder having additional field values to build insert query parameters.
 // Can be called multiple times to set as many field values as required.
 func (inserter InsertBuilder) Values(values ...FieldValue) InsertBuilder {
+	inserter.setValues = inserter.setValues[:len(inserter.setValues):len(inserter.setValues)] // never append in place
 	inserter.setValues = append(inserter.setValues, values...)
 	return inserter
 }
diff --git a/join_unfinished.go b/join_unfinished.go
index 3568494..c6cd445 100644
--- a/join_unfinished.go
+++ b/join_unfinished.go
@@ -11,6 +11,7 @@ type incompleteBaseJoiner struct {
 // Returns updated BaseSelectBuilder instance.
 func (joiner incompleteBaseJoiner) On(left FieldDefinition, right FieldDefinition) (updated BaseSelectBuilder) {
 	updated = joiner.BaseSelectBuilder
+	updated.joins = append([]TableJoiner{}, updated.joins...) // finalise own copy, leave joiner reusable
 	unfinishedJoinIdx := len(updated.joins) - 1
 	updated.joins[unfinishedJoinIdx] = updated.joins[unfinishedJoinIdx].By(left, right)
 
@@ -28,6 +29,7 @@ type incompleteManyJoiner struct {
 // Returns updated BaseSelectBuilder instance.
 func (joiner incompleteManyJoiner) On(left FieldDefinition, right FieldDefinition) (updated SelectManyBuilder) {
 	updated = joiner.SelectManyBuilder
+	updated.joins = append([]TableJoiner{}, updated.joins...) // finalise own copy, leave joiner reusable
 	unfinishedJoinIdx := len(updated.joins) - 1
 	updated.joins[unfinishedJoinIdx] = updated.joins[unfinishedJoinIdx].By(left, right)
 
@@ -45,6 +47,7 @@ type incompleteSingleJoiner struct {
 // Returns updated BaseSelectBuilder instance.
 func (joiner incompleteSingleJoiner) On(left FieldDefinition, right FieldDefinition) (updated SelectSingleBuilder) {
 	updated = joiner.SelectSingleBuilder
+	updated.joins = append([]TableJoiner{}, updated.joins...) // finalise own copy, leave joiner reusable
 	unfinishedJoinIdx := len(updated.joins) - 1
 	updated.joins[unfinishedJoinIdx] = updated.joins[unfinishedJoinIdx].By(left, right)
 
diff --git a/select_base.go b/select_base.go
index edecf61..0ce909a 100644
--- a/select_base.go
+++ b/select_base.go
@@ -187,6 +187,7 @@ func (query BaseSelectBuilder) OrderBy(orderByFields ...FieldSorting) SelectMany
 // Call IncompleteSelectJoin.On will return updated BaseSelectBuilder with join builder data finished.
 func (query BaseSelectBuilder) joinIdent(rightTable TableIdent, joinType TableJoinType) IncompleteSelectJoin {
 	updated := query
+	updated.joins = updated.joins[:len(updated.joins):len(updated.joins)] // never append in place, array could be shared
 	updated.joins = append(updated.joins, TableJoiner{rightTable: rightTable, joinType: joinType})
 	return incompleteBaseJoiner{BaseSelectBuilder: updated}
 }
diff --git a/select_many.go b/select_many.go
index 30cc574..3447181 100644
--- a/select_many.go
+++ b/select_many.go
@@ -104,6 +104,7 @@ func (query SelectManyBuilder) Limit(limit int) SelectManyBuilder {
 
 // OrderBy adds ordering by fields GroupAND returns modified SelectManyBuilder.
 func (query SelectManyBuilder) OrderBy(orderByFields ...FieldSorting) SelectManyBuilder {
+	query.order = query.order[:len(query.order):len(query.order)] // never append in place, array could be shared
 	query.order = append(query.order, orderByFields...)
 	return query
 }
@@ -134,6 +135,7 @@ func (query SelectManyBuilder) Delete() DeleteBuilder {
 // Call IncompleteSelectJoin.On will return updated BaseSelectBuilder with join builder data finished.
 func (query SelectManyBuilder) joinIdent(rightTable TableIdent, joinType TableJoinType) IncompleteSelectManyJoiner {
 	updated := query
+	updated.joins = updated.joins[:len(updated.joins):len(updated.joins)] // never append in place, array could be shared
 	updated.joins = append(updated.joins, TableJoiner{rightTable: rightTable, joinType: joinType})
 	return incompleteManyJoiner{SelectManyBuilder: updated}
 }
diff --git a/select_single.go b/select_single.go
index 12c25ac..be2afa5 100644
--- a/select_single.go
+++ b/select_single.go
@@ -55,6 +55,7 @@ func (query SelectSingleBuilder) Update(values ...FieldValue) UpdateBuilder {
 // Call IncompleteSelectJoin.On will return updated BaseSelectBuilder with join builder data finished.
 func (query SelectSingleBuilder) joinIdent(rightTable TableIdent, joinType TableJoinType) IncompleteSelectSingleJoiner {
 	updated := query
+	updated.joins = updated.joins[:len(updated.joins):len(updated.joins)] // never append in place, array could be shared
 	updated.joins = append(updated.joins, TableJoiner{rightTable: rightTable, joinType: joinType})
 	return incompleteSingleJoiner{SelectSingleBuilder: updated}
 }
diff --git a/update.go b/update.go
index da0c242..da2a989 100644
--- a/update.go
+++ b/update.go
@@ -27,6 +27,7 @@ func (updater UpdateBuilder) SetValues() []FieldValue {
 // Set generates new UpdateBuilder having extended fields to update array.
 // Can be called multiple times to set as many field values as required.
 func (updater UpdateBuilder) Set(values ...FieldValue) UpdateBuilder {
+	updater.setValues = updater.setValues[:len(updater.setValues):len(updater.setValues)] // never append in place
 	updater.setValues = append(updater.setValues, values...)
 	return updater
 }
-- 
2.43.0


From ae4d2a527d383ec9c81c50bfa24f3807898e28fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:03 +0000
Subject: [PATCH 04/22] fix: SetValues returns a copy as documented

---
 insert.go | 2 +-
 update.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/insert.go b/insert.go
index b5d6975..e6f50b7 100644
--- a/insert.go
+++ b/insert.go
@@ -20,7 +20,7 @@ func (inserter InsertBuilder) RenderFrom() string {
 
 // SetValues returns a copy of fields values attached to use in create query.
 func (inserter InsertBuilder) SetValues() []FieldValue {
-	return inserter.setValues
+	return append([]FieldValue{}, inserter.setValues...)
 }
 
 // Values generates new InsertBuilder having additional field values to build insert query parameters.
diff --git a/update.go b/update.go
index da2a989..607dc94 100644
--- a/update.go
+++ b/update.go
@@ -21,7 +21,7 @@ func (updater UpdateBuilder) RenderFrom() string {
 
 // SetValues returns a copy of fields to update.
 func (updater UpdateBuilder) SetValues() []FieldValue {
-	return updater.setValues
+	return append([]FieldValue{}, updater.setValues...)
 }
 
 // Set generates new UpdateBuilder having extended fields to update array.
-- 
2.43.0


From 59535075ef1f5269933033826a1f2f8b0afcae49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 05/22] fix: condition groups derived from the same group never
 share conditions

---
 group.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/group.go b/group.go
index 1b476db..addb077 100644
--- a/group.go
+++ b/group.go
@@ -133,6 +133,9 @@ func (conditionsGroup Group) addSingleCondition(condition Condition) Group {
 // addConditions adds new conditions into existing set and returns modified group.
 // Note it operates over Group copy and returns pointer to modified copy.
 func (conditionsGroup Group) addConditions(op JoinType, conditions ...Condition) Group {
+	// never append in place, underlying array could be shared with another group
+	conditionsGroup.conditions = conditionsGroup.conditions[:len(conditionsGroup.conditions):len(conditionsGroup.conditions)]
+
 	havingAnyAND := conditionsGroup.hasOne(LogicalAND)
 	havingAnyOR := conditionsGroup.hasOne(LogicalOR)
 	haveConditions := len(conditionsGroup.conditions) > 0
@@ -307,6 +310,8 @@ func (conditionsGroup Group) Values() (values []interface{}) {
 // ApplyFieldSpec makes a copy of Group with updated FieldDefinition on each child when field name matched.
 // Implements Condition.
 func (conditionsGroup Group) ApplyFieldSpec(spec FieldDefinition) Condition {
+	conditionsGroup.conditions = append([]Condition{}, conditionsGroup.conditions...) // leave original group intact
+
 	for idx := range conditionsGroup.conditions {
 		conditionsGroup.conditions[idx] = conditionsGroup.conditions[idx].ApplyFieldSpec(spec)
 	}
@@ -317,6 +322,8 @@ func (conditionsGroup Group) ApplyFieldSpec(spec FieldDefinition) Condition {
 // ApplyFieldTable makes a copy of Condition with updated FieldDefinition table name.
 // Implements Condition.
 func (conditionsGroup Group) ApplyFieldTable(table TableName) Condition {
+	conditionsGroup.conditions = append([]Condition{}, conditionsGroup.conditions...) // leave original group intact
+
 	for idx := range conditionsGroup.conditions {
 		conditionsGroup.conditions[idx] = conditionsGroup.conditions[idx].ApplyFieldTable(table)
 	}
-- 
2.43.0


From 00b24cda431243c75dbe68298c0db1da9288133b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:39 +0000
Subject: [PATCH 06/22] fix: negation of condition group is kept when group is
 combined

---
 group.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/group.go b/group.go
index addb077..9f95d0c 100644
--- a/group.go
+++ b/group.go
@@ -109,6 +109,7 @@ func (conditionsGroup Group) addSingleCondition(condition Condition) Group {
 	havingOnlyAND := conditionsGroup.hasAll(LogicalAND)
 	havingOnlyOR := conditionsGroup.hasAll(LogicalOR)
 	groupToAdd, addingGroup := condition.(Group)
+	addingGroup = addingGroup && !groupToAdd.IsNegate() // negated group could not be unpacked, add it as a whole
 	op := condition.JoinType()
 
 	switch {
@@ -136,6 +137,14 @@ func (conditionsGroup Group) addConditions(op JoinType, conditions ...Condition)
 	// never append in place, underlying array could be shared with another group
 	conditionsGroup.conditions = conditionsGroup.conditions[:len(conditionsGroup.conditions):len(conditionsGroup.conditions)]
 
+	if conditionsGroup.IsNegate() && len(conditions) > 0 && len(conditionsGroup.conditions) > 0 {
+		// negation belongs to existed conditions only, keep negated group as a first element of new group
+		conditionsGroup = Group{
+			BaseCondition: *newBaseCondition(conditionsGroup.joinType, false),
+			conditions:    []Condition{conditionsGroup},
+		}
+	}
+
 	havingAnyAND := conditionsGroup.hasOne(LogicalAND)
 	havingAnyOR := conditionsGroup.hasOne(LogicalOR)
 	haveConditions := len(conditionsGroup.conditions) > 0
-- 
2.43.0


From 28db68370c0fd0a7eb5bc9ffcb0c2b1aed8d6476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:41 +0000
Subject: [PATCH 07/22] fix: unpacking added condition group keeps requested
 join operator

---
 group.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index 9f95d0c..53de210 100644
--- a/group.go
+++ b/group.go
@@ -61,6 +61,11 @@ func (conditionsGroup Group) addGroup(anotherGroup Group) Group {
 
 	op := anotherGroup.joinType
 
+	if len(anotherGroup.conditions) > 0 { // if group get unpacked its first condition is joined as group itself
+		anotherGroup.conditions = append([]Condition{}, anotherGroup.conditions...)
+		anotherGroup.conditions[0] = op.Join(anotherGroup.conditions[0])
+	}
+
 	switch {
 	case haveNone: // current group empty, reset it op and elements from another
 		conditionsGroup.conditions = anotherGroup.conditions
@@ -79,7 +84,7 @@ func (conditionsGroup Group) addGroup(anotherGroup Group) Group {
 		conditionsGroup.conditions = append(conditionsGroup.conditions, anotherGroup.conditions...)
 	case havingOnlyOR && op == LogicalOR && addingAnyAnd: // (OR) OR (AND) => OR OR (AND)
 		conditionsGroup.conditions = append(conditionsGroup.conditions, anotherGroup.WithBrackets())
-	case havingAnyOR && op == LogicalAND && addingAnyAnd: // (OR) AND (AND) => (OR) AND AND
+	case havingAnyOR && op == LogicalAND && addingAnyAnd && addingOnlyAnd: // (OR) AND (AND) => (OR) AND AND
 		conditionsGroup.conditions = append([]Condition{conditionsGroup.WithBrackets()}, anotherGroup.conditions...)
 		// check conditions on having many conditions and adding group with conjunction
 
-- 
2.43.0


From 3983bc8c45e9f0b1f6db1c5e2c3839f3917d17de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:43 +0000
Subject: [PATCH 08/22] fix: several conditions added to group are joined as
 documented

---
 group.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/group.go b/group.go
index 53de210..7c1fcee 100644
--- a/group.go
+++ b/group.go
@@ -163,13 +163,13 @@ func (conditionsGroup Group) addConditions(op JoinType, conditions ...Condition)
 	case len(conditions) == 1: // process single element adding in separated Group.addSingleCondition
 		return conditionsGroup.addSingleCondition(op.Join(conditions[0]))
 	case havingAnyOR && op == LogicalAND: // enclose existed OR-OR into brackets and join flat AND-AND
-		conditionsGroup.conditions = append([]Condition{conditionsGroup.WithBrackets()}, conditions...)
+		conditionsGroup.conditions = append([]Condition{conditionsGroup.WithBrackets()}, LogicalAND.SetToAll(conditions...)...)
 	case havingAnyAND && op == LogicalOR: // join to existed flat AND-AND new OR(AND_AND)
-		conditionsGroup.conditions = append(conditionsGroup.conditions, op.Join(NewGroup(op, conditions...)))
+		conditionsGroup.conditions = append(conditionsGroup.conditions, op.Join(NewGroup(LogicalAND, conditions...).WithBrackets()))
 	default: // have many, adding many, enclose both sets into brackets and return new group with required join.
 		conditionsGroup.conditions = append([]Condition{
 			conditionsGroup.WithBrackets()},
-			NewGroup(LogicalAND, conditions...).WithBrackets(),
+			op.Join(NewGroup(LogicalAND, conditions...).WithBrackets()),
 		)
 	}
 
-- 
2.43.0


From 23b16e280eb42b3fe5a2c65b370f1245b23c042c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:45 +0000
Subject: [PATCH 09/22] fix: nested condition groups are enclosed into brackets
 when rendered

---
 group.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/group.go b/group.go
index 7c1fcee..cb0d800 100644
--- a/group.go
+++ b/group.go
@@ -241,6 +241,29 @@ func (conditionsGroup Group) Or(conditions ...Condition) Condition {
 	return conditionsGroup.GroupOR(conditions...)
 }
 
+// isCompound returns true if group renders as several joined conditions with no brackets around.
+func (conditionsGroup Group) isCompound() bool {
+	switch {
+	case conditionsGroup.withBrackets || conditionsGroup.IsNegate():
+		return false
+	case len(conditionsGroup.conditions) == 1:
+		nested, isGroup := conditionsGroup.conditions[0].(Group)
+		return isGroup && nested.isCompound()
+	default:
+		return len(conditionsGroup.conditions) > 1
+	}
+}
+
+// encloseNested encloses rendered nested group into brackets when required to keep nested group meaning.
+func (conditionsGroup Group) encloseNested(condition Condition, sql string) string {
+	nested, isGroup := condition.(Group)
+	if isGroup && nested.isCompound() && (len(conditionsGroup.conditions) > 1 || conditionsGroup.IsNegate()) {
+		return "(" + sql + ")"
+	}
+
+	return sql
+}
+
 // Render renders SQL SELECT clause part for current group.
 // Takes existed parameters number (0 means no parameters are defined yet)
 // Note Render renders group without brackets itself if called directly.
@@ -258,7 +281,7 @@ func (conditionsGroup Group) Render(parametersCount int) (sql string) {
 			sql += " " + joinToken + " "
 		}
 
-		sql += condition.Render(parametersCount)
+		sql += conditionsGroup.encloseNested(condition, condition.Render(parametersCount))
 		parametersCount += len(condition.Values())
 	}
 
@@ -292,7 +315,7 @@ func (conditionsGroup Group) RenderSQL() (sql string) {
 			sql += " " + joinToken + " "
 		}
 
-		sql += condition.RenderSQL()
+		sql += conditionsGroup.encloseNested(condition, condition.RenderSQL())
 	}
 
 	if conditionsGroup.IsNegate() && len(conditionsGroup.conditions) > 1 { // force set brackets when negate
-- 
2.43.0


From da607f1713b1b9a2a29877c3f3d98a978fbf3f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 10/22] fix: empty condition groups add nothing to rendered
 clauses and never pass as a filter

---
 group.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index cb0d800..2883edb 100644
--- a/group.go
+++ b/group.go
@@ -38,11 +38,26 @@ func NewGroup(joinType JoinType, conditions ...Condition) Group {
 	}
 	return Group{
 		BaseCondition: *newBaseCondition(LogicalAND, false),
-		conditions:    joinType.SetToAll(conditions...),
+		conditions:    joinType.SetToAll(withoutEmptyGroups(conditions)...),
 		withBrackets:  false,
 	}
 }
 
+// withoutEmptyGroups returns conditions except groups having nothing to render.
+func withoutEmptyGroups(conditions []Condition) []Condition {
+	nonEmpty := make([]Condition, 0, len(conditions))
+
+	for _, condition := range conditions {
+		if group, isGroup := condition.(Group); isGroup && len(group.conditions) == 0 {
+			continue
+		}
+
+		nonEmpty = append(nonEmpty, condition)
+	}
+
+	return nonEmpty
+}
+
 // addGroup does extra routines while adding single group element.
 // Note it operates over Group copy and returns pointer to modified copy.
 func (conditionsGroup Group) addGroup(anotherGroup Group) Group {
@@ -139,6 +154,8 @@ func (conditionsGroup Group) addSingleCondition(condition Condition) Group {
 // addConditions adds new conditions into existing set and returns modified group.
 // Note it operates over Group copy and returns pointer to modified copy.
 func (conditionsGroup Group) addConditions(op JoinType, conditions ...Condition) Group {
+	conditions = withoutEmptyGroups(conditions)
+
 	// never append in place, underlying array could be shared with another group
 	conditionsGroup.conditions = conditionsGroup.conditions[:len(conditionsGroup.conditions):len(conditionsGroup.conditions)]
 
-- 
2.43.0


From 31df32ffd11b4645d3b336bc4476f86777e895f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 11/22] fix: SelectManyBuilder and SelectSingleBuilder Render
 and RenderSQL include ordering and limits

---
 select_many.go   | 49 ++++++++++++++++++++++++++++++++++++++++++++++++
 select_single.go | 13 +++++++++++++
 2 files changed, 62 insertions(+)

diff --git a/select_many.go b/select_many.go
index 3447181..43dad31 100644
--- a/select_many.go
+++ b/select_many.go
@@ -51,6 +51,55 @@ func (query SelectManyBuilder) BuildQueryAndParams() (sql string, params []inter
 	return sql, params, nil
 }
 
+// limiter returns Limiter having the same offset and limit to render using different placeholders.
+func (query SelectManyBuilder) limiter() Limiter {
+	limiter := Limiter{}.Offset(query.offset)
+	if query.limit > 0 {
+		limiter = limiter.Limit(uint(query.limit))
+	}
+
+	return limiter
+}
+
+// appendTail appends ordering and rendered limiter clauses to rendered base query.
+func (query SelectManyBuilder) appendTail(sql string, limiterSQL string) string {
+	for idx, order := range query.order {
+		if idx == 0 {
+			sql += " ORDER BY " + order.Render()
+		} else {
+			sql += ", " + order.Render()
+		}
+	}
+
+	if len(limiterSQL) > 0 {
+		sql += " " + limiterSQL
+	}
+
+	return sql
+}
+
+// RenderSQL renders whole query including ordering, offset and limit using "?"(question) placeholders.
+// Implements RawClauseRenderer.
+func (query SelectManyBuilder) RenderSQL() (sql string) {
+	return query.appendTail(query.BaseSelectBuilder.RenderSQL(), query.limiter().RenderSQL())
+}
+
+// Render renders whole query including ordering, offset and limit using numbered placeholders.
+// Takes existed parameters count (0 means no parameters are defined yet).
+// Implements CountingClauseRenderer.
+func (query SelectManyBuilder) Render(parametersCount int) (sql string) {
+	return query.appendTail(
+		query.BaseSelectBuilder.Render(parametersCount),
+		query.limiter().Render(parametersCount+len(query.BaseSelectBuilder.Values())),
+	)
+}
+
+// Values returns parameters to substitute in query generated using RenderSQL or Render, offset and limit included.
+// Implements ValuesProvider.
+func (query SelectManyBuilder) Values() (params []any) {
+	return append(query.BaseSelectBuilder.Values(), query.limiter().Values()...)
+}
+
 // FieldList returns spec list string with their possible aliases to build select query.
 func (query SelectManyBuilder) FieldList() string {
 	return query.BaseSelectBuilder.fields.FieldList()
diff --git a/select_single.go b/select_single.go
index be2afa5..9d05cd5 100644
--- a/select_single.go
+++ b/select_single.go
@@ -17,6 +17,19 @@ func (query SelectSingleBuilder) BuildQueryAndParams() (sql string, params []int
 	return sql + " LIMIT 1", params, nil
 }
 
+// RenderSQL renders whole query using "?"(question) placeholders.
+// Implements RawClauseRenderer.
+func (query SelectSingleBuilder) RenderSQL() (sql string) {
+	return query.BaseSelectBuilder.RenderSQL() + " LIMIT 1"
+}
+
+// Render renders whole query using numbered placeholders.
+// Takes existed parameters count (0 means no parameters are defined yet).
+// Implements CountingClauseRenderer.
+func (query SelectSingleBuilder) Render(parametersCount int) (sql string) {
+	return query.BaseSelectBuilder.Render(parametersCount) + " LIMIT 1"
+}
+
 // FieldList returns spec list string with their possible aliases to build select query.
 func (query SelectSingleBuilder) FieldList() string {
 	return query.BaseSelectBuilder.fields.FieldList()
-- 
2.43.0


From 54fbdb146ab82ab155fd5d1d98ddbd8c0d522b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 12/22] fix: field specification with extra or dangling dots is
 an error instead of silently losing a part

---
 field_definition.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/field_definition.go b/field_definition.go
index ff33351..175be72 100644
--- a/field_definition.go
+++ b/field_definition.go
@@ -43,6 +43,13 @@ func FieldOrError[T FieldNameParameter](fieldName T) (field *FieldDefinition, er
 	}
 
 	tokens := strings.Fields(strName)
+	if len(tokens) > 0 && strings.Contains(tokens[0], ".") {
+		// only <table>.<name> form is allowed
+		if tableName, name, _ := strings.Cut(tokens[0], "."); tableName == "" || name == "" || strings.Contains(name, ".") {
+			return nil, fmt.Errorf("%w: unexpected field specification: %v", Error, strName)
+		}
+	}
+
 	switch {
 	case len(tokens) == 1 && !strings.Contains(tokens[0], "."):
 		return &FieldDefinition{fieldName: tokens[0], alias: "", tableName: ""}, nil
-- 
2.43.0


From 79849ee18c9590d717bd10c59697b08205803e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 13/22] fix: FieldName.Validate rejects any whitespace, names
 with tabs or newlines were passed and caused panics later

---
 field_name.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/field_name.go b/field_name.go
index ce8eab9..c04681c 100644
--- a/field_name.go
+++ b/field_name.go
@@ -3,6 +3,7 @@ package query
 import (
 	"fmt"
 	"strings"
+	"unicode"
 )
 
 // ValueProvider implementations provides it's own values to database.
@@ -25,6 +26,8 @@ func (fn FieldName) Validate() error {
 		return fmt.Errorf("%w: field name contains double quote character", Error)
 	case strings.Contains(fnStr, " "):
 		return fmt.Errorf("%w: field name contains space character", Error)
+	case strings.IndexFunc(fnStr, unicode.IsSpace) >= 0:
+		return fmt.Errorf("%w: field name contains whitespace character", Error)
 	case strings.Count(fnStr, ".") > 1:
 		return fmt.Errorf("%w: too many dots inside field name", Error)
 	case len(fnStr) == 0:
-- 
2.43.0


From 0568d86a25ccb90e9f78519f845ec5e83b449825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:23 +0000
Subject: [PATCH 14/22] fix: "<name> <alias>" table specification accepts alias
 equal to name as documented

---
 table_ident.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/table_ident.go b/table_ident.go
index 64a9be3..2d228f6 100644
--- a/table_ident.go
+++ b/table_ident.go
@@ -54,6 +54,8 @@ func TableOrError[T TableNameParameter](name T) (*TableIdent, error) {
 		return &TableIdent{name: tokens[0], alias: ""}, nil
 	case len(tokens) == 2 && len(tokens[1]) > 0 && tokens[1] != tokens[0]:
 		return &TableIdent{name: tokens[0], alias: tokens[1]}, nil
+	case len(tokens) == 2 && tokens[1] == tokens[0]:
+		return &TableIdent{name: tokens[0], alias: ""}, nil
 	default:
 		return nil, fmt.Errorf("%w: unexpected table ident: `%v`", Error, name)
 	}
-- 
2.43.0


From 13f83a91133b2ede7133ab4699a11155e99d1020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:25 +0000
Subject: [PATCH 15/22] fix: INSERT and UPDATE return error if field has not
 exactly one value

---
 insert.go | 4 ++++
 update.go | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/insert.go b/insert.go
index e6f50b7..94eeea6 100644
--- a/insert.go
+++ b/insert.go
@@ -49,6 +49,10 @@ func (inserter InsertBuilder) BuildQueryAndParams() (sql string, params []interf
 	valuePlaceholders := make([]string, 0)
 
 	for _, fieldValue := range inserter.setValues {
+		if count := len(fieldValue.Values()); count != 1 {
+			return "", make([]interface{}, 0), fmt.Errorf("%w: field %v requires single value, got %d", Error, fieldValue.fieldName, count)
+		}
+
 		params = append(params, fieldValue.Values()...)
 
 		columns = append(columns, fieldValue.fieldName)
diff --git a/update.go b/update.go
index 607dc94..612dc1d 100644
--- a/update.go
+++ b/update.go
@@ -65,6 +65,12 @@ func (updater UpdateBuilder) BuildQueryAndParams() (sql string, params []interfa
 		return "", params, fmt.Errorf("%w: no table name set", Error)
 	}
 
+	for _, fieldValue := range updater.setValues {
+		if count := len(fieldValue.Values()); count != 1 {
+			return "", params, fmt.Errorf("%w: field %v requires single value, got %d", Error, fieldValue.fieldName, count)
+		}
+	}
+
 	fieldsEnum, params = updater.fieldsAndValues()
 	sql = strings.Join([]string{
 		kwUpdate.String(),
-- 
2.43.0


From 4fc080505508d1a52f2990374ed9d3ce0a74415b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:18 +0000
Subject: [PATCH 16/22] fix: failed driver.Valuer translation is not replaced
 with NULL, nil valuers are NULL

---
 value.go | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/value.go b/value.go
index d760d1f..a82ec4f 100644
--- a/value.go
+++ b/value.go
@@ -29,20 +29,46 @@ func (fieldValue FieldValue) ApplyFieldSpec(spec FieldDefinition) FieldValue {
 	return fieldValue
 }
 
+// isNilValuer returns true if valuer should be translated to NULL without a call to its Value method.
+// It follows database/sql: nil pointer is NULL if Value method is defined for pointed type.
+func isNilValuer(valuer driver.Valuer) bool {
+	if valuer == nil {
+		return true
+	}
+
+	reflection := reflect.ValueOf(valuer)
+
+	return reflection.Kind() == reflect.Pointer && reflection.IsNil() &&
+		reflection.Type().Elem().Implements(reflect.TypeOf((*driver.Valuer)(nil)).Elem())
+}
+
+// translateValuer translates value using its driver.Valuer implementation.
+// If translation failed returns value itself to let database/sql report an error when query is executed.
+func translateValuer(valuer driver.Valuer) any {
+	if isNilValuer(valuer) {
+		return nil
+	}
+
+	value, err := valuer.Value()
+	if err != nil {
+		return valuer
+	}
+
+	return value
+}
+
 // Values returns a slice of interface{} containing single field value.
 func (fieldValue FieldValue) Values() (result []interface{}) {
 	var err error
 
 	switch typedValue := fieldValue.value.(type) {
 	case driver.Valuer:
-		singleValue, _ := typedValue.Value()
-		return []any{singleValue}
+		return []any{translateValuer(typedValue)}
 	case []driver.Valuer:
 		result = make([]any, len(typedValue))
 
 		for idx, value := range typedValue {
-			singleValue, _ := value.Value()
-			result[idx] = singleValue
+			result[idx] = translateValuer(value)
 		}
 
 		return result
@@ -79,8 +105,8 @@ func (fieldValue FieldValue) Values() (result []interface{}) {
 			for idx := 0; idx < len(res); idx++ {
 				elem := valueReflection.Index(idx)
 				rawElem := elem.Interface()
-				valuer := rawElem.(driver.Valuer)
-				if valuer == nil {
+				valuer, _ := rawElem.(driver.Valuer)
+				if isNilValuer(valuer) {
 					res[idx] = nil
 				} else {
 					if res[idx], err = valuer.Value(); err != nil {
-- 
2.43.0


From 4b925170c4c5134a427906f273309b2da7bfa67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 17/22] fix: In expands lists of any element type into separate
 placeholders

---
 lib_in.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/lib_in.go b/lib_in.go
index ebd5c56..05c83d9 100644
--- a/lib_in.go
+++ b/lib_in.go
@@ -1,6 +1,8 @@
 package query
 
 import (
+	"database/sql/driver"
+	"reflect"
 	"strconv"
 	"strings"
 )
@@ -85,6 +87,31 @@ func (impl in) RenderSQL() (sql string) {
 	return strings.Join(tokens, " ")
 }
 
+// Values returns list elements to match field value with.
+// Slice or array elements of any type except bytes are provided as separate values.
+func (impl in) Values() (values []interface{}) {
+	switch impl.value.(type) {
+	case driver.Valuer, []driver.Valuer, ValueProvider, []ValueProvider, []string:
+		return impl.FieldValue.Values() // translated by FieldValue
+	}
+
+	reflection := reflect.ValueOf(impl.value)
+	if kind := reflection.Kind(); kind != reflect.Slice && kind != reflect.Array {
+		return impl.FieldValue.Values()
+	}
+
+	if reflection.Type().Elem().Kind() == reflect.Uint8 {
+		return impl.FieldValue.Values() // bytes is a single value
+	}
+
+	values = make([]interface{}, 0, reflection.Len())
+	for idx := 0; idx < reflection.Len(); idx++ {
+		values = append(values, FieldValue{value: reflection.Index(idx).Interface()}.Values()...)
+	}
+
+	return values
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl in) And(conditions ...Condition) Condition {
-- 
2.43.0


From bd0bd0430ae546725c2741c9eadeda4654cb290d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 18/22] fix: In with empty list renders valid condition
 matching nothing

---
 lib_in.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/lib_in.go b/lib_in.go
index 05c83d9..7b2920f 100644
--- a/lib_in.go
+++ b/lib_in.go
@@ -54,6 +54,10 @@ func (impl in) Render(paramNum int) string {
 		placeholders[idx] = "$" + strconv.Itoa(paramNum+idx+1)
 	}
 
+	if len(placeholders) == 0 {
+		return impl.renderEmpty()
+	}
+
 	placeholdersString := "(" + strings.Join(placeholders, ",") + ")"
 
 	if impl.IsNegate() {
@@ -76,6 +80,10 @@ func (impl in) RenderSQL() (sql string) {
 		placeholders[idx] = "?"
 	}
 
+	if len(placeholders) == 0 {
+		return impl.renderEmpty()
+	}
+
 	placeholdersString := "(" + strings.Join(placeholders, ",") + ")"
 
 	if impl.IsNegate() {
@@ -87,6 +95,15 @@ func (impl in) RenderSQL() (sql string) {
 	return strings.Join(tokens, " ")
 }
 
+// renderEmpty renders condition having no values to match: nothing is in empty list. SQL does not allow "IN ()".
+func (impl in) renderEmpty() string {
+	if impl.IsNegate() {
+		return "1=1"
+	}
+
+	return "1=0"
+}
+
 // Values returns list elements to match field value with.
 // Slice or array elements of any type except bytes are provided as separate values.
 func (impl in) Values() (values []interface{}) {
-- 
2.43.0


From 78616fa8e6f1de5237d6a13e2bd3a9faa5fa3297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:24 +0000
Subject: [PATCH 19/22] fix: conditions on fields with aliases do not render
 alias definition

---
 lib_isnull.go | 6 ++++++
 value.go      | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/lib_isnull.go b/lib_isnull.go
index f0b2eec..2fd8071 100644
--- a/lib_isnull.go
+++ b/lib_isnull.go
@@ -39,6 +39,12 @@ func (impl nullValue) Negate(newNegateIndicator bool) Condition {
 	return impl
 }
 
+// RenderSpec returns field identification to use in conditional clauses.
+// Note alias could not be defined inside of conditional clause, only used, so it differs from FieldDefinition.RenderSpec.
+func (impl nullValue) RenderSpec() string {
+	return impl.RenderField()
+}
+
 // Render renders IsNULL condition clause.
 func (impl nullValue) Render(_ int) string {
 	return impl.RenderSQL()
diff --git a/value.go b/value.go
index a82ec4f..b1f185e 100644
--- a/value.go
+++ b/value.go
@@ -29,6 +29,12 @@ func (fieldValue FieldValue) ApplyFieldSpec(spec FieldDefinition) FieldValue {
 	return fieldValue
 }
 
+// RenderSpec returns field identification to use in conditional clauses.
+// Note alias could not be defined inside of conditional clause, only used, so it differs from FieldDefinition.RenderSpec.
+func (fieldValue FieldValue) RenderSpec() string {
+	return fieldValue.RenderField()
+}
+
 // isNilValuer returns true if valuer should be translated to NULL without a call to its Value method.
 // It follows database/sql: nil pointer is NULL if Value method is defined for pointed type.
 func isNilValuer(valuer driver.Valuer) bool {
-- 
2.43.0


From c5dc0c97fa1dd078232496e9186e657739858882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 20/22] fix: comparison with a list of values keeps single
 parameter for its single placeholder

---
 lib_equal.go |  5 +++++
 lib_gt.go    |  5 +++++
 lib_gte.go   |  5 +++++
 lib_lt.go    |  5 +++++
 lib_lte.go   |  5 +++++
 value.go     | 10 ++++++++++
 6 files changed, 35 insertions(+)

diff --git a/lib_equal.go b/lib_equal.go
index 7615bcf..1184a51 100644
--- a/lib_equal.go
+++ b/lib_equal.go
@@ -61,6 +61,11 @@ func (impl equalTo) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values provides single value to fill the only placeholder rendered.
+func (impl equalTo) Values() []interface{} {
+	return impl.singleValue()
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl equalTo) And(conditions ...Condition) Condition {
diff --git a/lib_gt.go b/lib_gt.go
index 5e7eb4c..61a7d3b 100644
--- a/lib_gt.go
+++ b/lib_gt.go
@@ -61,6 +61,11 @@ func (impl greater) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values provides single value to fill the only placeholder rendered.
+func (impl greater) Values() []interface{} {
+	return impl.singleValue()
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl greater) And(conditions ...Condition) Condition {
diff --git a/lib_gte.go b/lib_gte.go
index 74c4b74..58411cf 100644
--- a/lib_gte.go
+++ b/lib_gte.go
@@ -62,6 +62,11 @@ func (impl greaterOrEqual) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values provides single value to fill the only placeholder rendered.
+func (impl greaterOrEqual) Values() []interface{} {
+	return impl.singleValue()
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl greaterOrEqual) And(conditions ...Condition) Condition {
diff --git a/lib_lt.go b/lib_lt.go
index 540996d..ba2d1fd 100644
--- a/lib_lt.go
+++ b/lib_lt.go
@@ -65,6 +65,11 @@ func (impl less) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values provides single value to fill the only placeholder rendered.
+func (impl less) Values() []interface{} {
+	return impl.singleValue()
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl less) And(conditions ...Condition) Condition {
diff --git a/lib_lte.go b/lib_lte.go
index 84db60c..a58fbbf 100644
--- a/lib_lte.go
+++ b/lib_lte.go
@@ -66,6 +66,11 @@ func (impl lessOrEqual) RenderSQL() (sql string) {
 	return strings.Join(tokens, "")
 }
 
+// Values provides single value to fill the only placeholder rendered.
+func (impl lessOrEqual) Values() []interface{} {
+	return impl.singleValue()
+}
+
 // And generates new condition which true on all conditions met.
 // Implements Condition.
 func (impl lessOrEqual) And(conditions ...Condition) Condition {
diff --git a/value.go b/value.go
index b1f185e..0516b96 100644
--- a/value.go
+++ b/value.go
@@ -127,6 +127,16 @@ func (fieldValue FieldValue) Values() (result []interface{}) {
 	return []any{fieldValue.value}
 }
 
+// singleValue returns a slice containing exactly one value.
+// A list giving several values or none is provided as is, leaving its translation up to driver.
+func (fieldValue FieldValue) singleValue() []interface{} {
+	if values := fieldValue.Values(); len(values) == 1 {
+		return values
+	}
+
+	return []interface{}{fieldValue.value}
+}
+
 // NewFieldValue creates new FieldValue having specified field name and value.
 func NewFieldValue(fieldName FieldName, fieldValue interface{}) *FieldValue {
 	return &FieldValue{
-- 
2.43.0


From 8f4b27c6eec7ccc027db62872880f10201b00769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 21/22] fix: join conditions having no join type with AND when
 added to an empty group

---
 group.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index 2883edb..924a389 100644
--- a/group.go
+++ b/group.go
@@ -58,6 +58,22 @@ func withoutEmptyGroups(conditions []Condition) []Condition {
 	return nonEmpty
 }
 
+// withJoinTypes returns conditions having logical AND set where no join type is defined,
+// as in conditions implemented using zero BaseCondition.
+func withJoinTypes(conditions []Condition) []Condition {
+	result := make([]Condition, len(conditions))
+
+	for idx, condition := range conditions {
+		if condition.JoinType() == "" {
+			condition = LogicalAND.Join(condition)
+		}
+
+		result[idx] = condition
+	}
+
+	return result
+}
+
 // addGroup does extra routines while adding single group element.
 // Note it operates over Group copy and returns pointer to modified copy.
 func (conditionsGroup Group) addGroup(anotherGroup Group) Group {
@@ -175,7 +191,7 @@ func (conditionsGroup Group) addConditions(op JoinType, conditions ...Condition)
 	case len(conditions) == 0: // simply return pointer to copy if no new conditions.
 		return conditionsGroup
 	case !haveConditions: // join to existed flat AND-AND new OR(AND_AND)
-		conditionsGroup.conditions = append(conditionsGroup.conditions, conditions...)
+		conditionsGroup.conditions = append(conditionsGroup.conditions, withJoinTypes(conditions)...)
 		conditionsGroup.joinType = op
 	case len(conditions) == 1: // process single element adding in separated Group.addSingleCondition
 		return conditionsGroup.addSingleCondition(op.Join(conditions[0]))
-- 
2.43.0


From 44c594be67158ed613a491b080117f5b4a6ffe23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:04 +0000
Subject: [PATCH 22/22] fix: pointers to groups and conditions embedding a
 group are enclosed or skipped like groups

---
 group.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/group.go b/group.go
index 924a389..6317b9f 100644
--- a/group.go
+++ b/group.go
@@ -7,6 +7,12 @@ type Group struct {
 	withBrackets bool        // indicate whether to draw group in brackets. False by default.
 }
 
+// conditionsSet is implemented by Group as well as by pointers to it and conditions extending it by embedding.
+type conditionsSet interface {
+	isEmpty() bool
+	isCompound() bool
+}
+
 // WithBrackets creates new group having same conditions but required to enclose conditions into brackets.
 func (conditionsGroup Group) WithBrackets() Group {
 	conditionsGroup.withBrackets = true
@@ -48,7 +54,7 @@ func withoutEmptyGroups(conditions []Condition) []Condition {
 	nonEmpty := make([]Condition, 0, len(conditions))
 
 	for _, condition := range conditions {
-		if group, isGroup := condition.(Group); isGroup && len(group.conditions) == 0 {
+		if set, isSet := condition.(conditionsSet); isSet && set.isEmpty() {
 			continue
 		}
 
@@ -274,14 +280,19 @@ func (conditionsGroup Group) Or(conditions ...Condition) Condition {
 	return conditionsGroup.GroupOR(conditions...)
 }
 
+// isEmpty returns true if group has nothing to render.
+func (conditionsGroup Group) isEmpty() bool {
+	return len(conditionsGroup.conditions) == 0
+}
+
 // isCompound returns true if group renders as several joined conditions with no brackets around.
 func (conditionsGroup Group) isCompound() bool {
 	switch {
 	case conditionsGroup.withBrackets || conditionsGroup.IsNegate():
 		return false
 	case len(conditionsGroup.conditions) == 1:
-		nested, isGroup := conditionsGroup.conditions[0].(Group)
-		return isGroup && nested.isCompound()
+		nested, isSet := conditionsGroup.conditions[0].(conditionsSet)
+		return isSet && nested.isCompound()
 	default:
 		return len(conditionsGroup.conditions) > 1
 	}
@@ -289,8 +300,8 @@ func (conditionsGroup Group) isCompound() bool {
 
 // encloseNested encloses rendered nested group into brackets when required to keep nested group meaning.
 func (conditionsGroup Group) encloseNested(condition Condition, sql string) string {
-	nested, isGroup := condition.(Group)
-	if isGroup && nested.isCompound() && (len(conditionsGroup.conditions) > 1 || conditionsGroup.IsNegate()) {
+	nested, isSet := condition.(conditionsSet)
+	if isSet && nested.isCompound() && (len(conditionsGroup.conditions) > 1 || conditionsGroup.IsNegate()) {
 		return "(" + sql + ")"
 	}
 
-- 
2.43.0

