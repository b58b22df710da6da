From b070b0af06d6dd566b84ec9e885f4a3eec04830b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:22 +0000
Subject: [PATCH 01/74] fix: report unsupported statements instead of dropping
 them

---
 sql/parser/sqlite/parser_antlr.go         |  3 +++
 sql/parser/sqlite/parser_antlr_visitor.go | 18 ++++++++++++------
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr.go b/sql/parser/sqlite/parser_antlr.go
index 65f7f1e..07b075e 100644
--- a/sql/parser/sqlite/parser_antlr.go
+++ b/sql/parser/sqlite/parser_antlr.go
@@ -75,6 +75,9 @@ func (parser *Parser) ParseString(queryString string) ([]query.Statement, error)
 	}
 
 	v := tree.Accept(newANTLRVisitor())
+	if err, ok := v.(error); ok {
+		return nil, fmt.Errorf("%s (%w)", queryString, err)
+	}
 	stmtList, ok := v.(query.StatementList)
 	if !ok {
 		return nil, fmt.Errorf("failed to parse query: %s", queryString)
diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index af451cb..91bfccc 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -15,6 +15,8 @@
 package sqlite
 
 import (
+	"fmt"
+
 	"github.com/cybergarage/go-safecast/safecast"
 	"github.com/cybergarage/go-sqlparser/sql/fn"
 	"github.com/cybergarage/go-sqlparser/sql/parser/sqlite/antlr"
@@ -35,21 +37,25 @@ func newANTLRVisitor() *antlrVisitor {
 }
 
 func (v *antlrVisitor) VisitParse(ctx *antlr.ParseContext) interface{} {
-	return newStatementListWith(ctx.AllSql_stmt_list())
+	stmtList, err := newStatementListWith(ctx.AllSql_stmt_list())
+	if err != nil {
+		return err
+	}
+	return stmtList
 }
 
-func newStatementListWith(ctxList []antlr.ISql_stmt_listContext) query.StatementList {
+func newStatementListWith(ctxList []antlr.ISql_stmt_listContext) (query.StatementList, error) {
 	stmtList := query.NewStatementList()
 	for _, ctx := range ctxList {
 		for _, sqlStmt := range ctx.AllSql_stmt() {
 			stmt := newStatementWith(sqlStmt)
 			if stmt == nil {
-				continue
+				return nil, fmt.Errorf("statement (%s) %w", sqlStmt.GetText(), query.ErrNotSupported)
 			}
 			stmtList = append(stmtList, stmt)
 		}
 	}
-	return stmtList
+	return stmtList, nil
 }
 
 func newStatementWith(ctx antlr.ISql_stmtContext) query.Statement {
@@ -607,8 +613,8 @@ func newCopyWith(ctx antlr.ICopy_stmtContext) query.Copy {
 		opts = append(opts, query.WithCopyColumns(columns...))
 	}
 	if ctx := ctx.Copy_format(); ctx != nil {
-		fmt := ctx.GetFormat_type().GetText()
-		opts = append(opts, query.WithCopyFormat(fmt))
+		format := ctx.GetFormat_type().GetText()
+		opts = append(opts, query.WithCopyFormat(format))
 	}
 	return query.NewCopyWith(
 		strings.UnEscapeString(ctx.GetTable().GetText()),
-- 
2.43.0


From 1295f3fe3a8eab5f2958adbd081eba47b584253a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:41 +0000
Subject: [PATCH 02/74] fix: reject UPDATE and DELETE whose WHERE clause cannot
 be represented

---
 sql/parser/sqlite/parser_antlr_visitor.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 91bfccc..a60b28f 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -490,7 +490,11 @@ func newUpdateWith(ctx antlr.IUpdate_stmtContext) query.Update {
 	}
 	where := query.NewCondition()
 	if w := ctx.GetWhereExpr(); w != nil {
-		where = query.NewConditionWith(newExprWith(w))
+		expr := newExprWith(w)
+		if expr == nil {
+			return nil
+		}
+		where = query.NewConditionWith(expr)
 	}
 	return query.NewUpdateWith(tbl, columns, where)
 }
@@ -598,7 +602,11 @@ func newDeleteWith(ctx antlr.IDelete_stmtContext) query.Delete {
 	tbl := query.NewTableWith(ctx.GetTable().GetText())
 	where := query.NewCondition()
 	if w := ctx.GetWhereExpr(); w != nil {
-		where = query.NewConditionWith(newExprWith(w))
+		expr := newExprWith(w)
+		if expr == nil {
+			return nil
+		}
+		where = query.NewConditionWith(expr)
 	}
 	return query.NewDeleteWith(tbl, where)
 }
-- 
2.43.0


From 8c9cc08e64bd269c59058c4327bfe1677c9fbbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:06 +0000
Subject: [PATCH 03/74] fix: do not panic on INSERT without a VALUES clause

---
 sql/parser/sqlite/parser_antlr_visitor.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index a60b28f..c989b55 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -433,8 +433,12 @@ func newInsertWith(ctx antlr.IInsert_stmtContext) query.Insert {
 	for _, name := range ctx.AllColumn_name() {
 		names = append(names, name.GetText())
 	}
+	valuesClause := ctx.Values_clause()
+	if valuesClause == nil {
+		return nil
+	}
 	values := []query.Columns{}
-	for _, row := range ctx.Values_clause().AllValue_row() {
+	for _, row := range valuesClause.AllValue_row() {
 		columns := query.NewColumns()
 		valueIdx := 0
 		for _, expr := range row.AllExpr() {
-- 
2.43.0


From 2e81981b3fc63142b2bdb5b32781ca03ceb68510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:30 +0000
Subject: [PATCH 04/74] fix: do not panic on UPDATE with a column name list

---
 sql/parser/sqlite/parser_antlr_visitor.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index c989b55..fc9d40c 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -471,7 +471,11 @@ func newUpdateWith(ctx antlr.IUpdate_stmtContext) query.Update {
 	tbl := query.NewTableWith(ctx.GetTable().GetText())
 	columns := query.NewColumns()
 	for _, set := range ctx.AllUpdate_column_set() {
-		name := set.Column_name().GetText()
+		setColumn := set.Column_name()
+		if setColumn == nil {
+			return nil
+		}
+		name := setColumn.GetText()
 		opts := []query.ColumnOption{
 			query.WithColumnName(name),
 		}
-- 
2.43.0


From adb57147982d285c178d0dbfe439408996db3ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:56 +0000
Subject: [PATCH 05/74] fix: do not panic on CREATE INDEX over an expression

---
 sql/parser/sqlite/parser_antlr_visitor.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index fc9d40c..61e41d7 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -150,7 +150,11 @@ func newCreateIndexWith(ctx antlr.ICreate_index_stmtContext) query.CreateIndex {
 	if ctx.If_not_exists() != nil {
 		ifNotExists = query.NewIfNotExistsWith(true)
 	}
-	return query.NewCreateIndexWith(newIndexSchemaWith(ctx), ifNotExists)
+	schema := newIndexSchemaWith(ctx)
+	if schema == nil {
+		return nil
+	}
+	return query.NewCreateIndexWith(schema, ifNotExists)
 }
 
 func newDropDatabaseWith(ctx antlr.IDrop_database_stmtContext) query.DropDatabase {
@@ -350,6 +354,9 @@ func newIndexSchemaWith(ctx antlr.ICreate_index_stmtContext) query.Schema {
 	indexes := query.NewIndexes()
 	indexColumns := query.NewColumns()
 	for _, columDef := range ctx.AllIndexed_column() {
+		if columDef.Column_name() == nil {
+			return nil
+		}
 		columDef := strings.UnEscapeNameString(columDef.Column_name().GetText())
 		indexColumn := query.NewColumnWithName(columDef)
 		indexColumns = append(indexColumns, indexColumn)
-- 
2.43.0


From 4910c7c0c6405484a76ad7e0756cc42d8631a6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:22 +0000
Subject: [PATCH 06/74] fix: do not panic on PRIMARY KEY over an expression

---
 sql/parser/sqlite/parser_antlr_visitor.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 61e41d7..f877ade 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -142,7 +142,11 @@ func newCreateTableWith(ctx antlr.ICreate_table_stmtContext) query.CreateTable {
 	if ctx.If_not_exists() != nil {
 		ifNotExists = query.NewIfNotExistsWith(true)
 	}
-	return query.NewCreateTableWith(newTableSchemaWith(ctx), ifNotExists)
+	schema := newTableSchemaWith(ctx)
+	if schema == nil {
+		return nil
+	}
+	return query.NewCreateTableWith(schema, ifNotExists)
 }
 
 func newCreateIndexWith(ctx antlr.ICreate_index_stmtContext) query.CreateIndex {
@@ -337,6 +341,9 @@ func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) query.Schema {
 		if primaryDef := tblConst.Primary_key_def(); primaryDef != nil {
 			indexColums := query.NewColumns()
 			for _, columDef := range primaryDef.AllIndexed_column() {
+				if columDef.Column_name() == nil {
+					return nil
+				}
 				column := newIndexedColumnWith(columDef)
 				indexColums = append(indexColums, column)
 			}
-- 
2.43.0


From 93a66bc607f9ff4686bc324c613023eaba83e88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:48 +0000
Subject: [PATCH 07/74] fix: forget the syntax error of a previous query

---
 sql/parser/sqlite/parser_antlr.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sql/parser/sqlite/parser_antlr.go b/sql/parser/sqlite/parser_antlr.go
index 07b075e..c0473b5 100644
--- a/sql/parser/sqlite/parser_antlr.go
+++ b/sql/parser/sqlite/parser_antlr.go
@@ -66,6 +66,7 @@ func (parser *Parser) ParseString(queryString string) ([]query.Statement, error)
 	parser.lexer = antlr.NewSQLiteLexer(parser.inputStream)
 	parser.tokenStream = go_antlr.NewCommonTokenStream(parser.lexer, 0)
 	parser.parser = antlr.NewSQLiteParser(parser.tokenStream)
+	parser.errorListener = newANTLRParserErrorListener()
 	parser.parser.AddErrorListener(parser.errorListener)
 	parser.parser.BuildParseTrees = true
 	tree := parser.parser.Parse()
-- 
2.43.0


From 098edcbcede10a1277339fa889a86d3a91c1a2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:12 +0000
Subject: [PATCH 08/74] fix: name the dropped column in ALTER TABLE DROP COLUMN

---
 sql/parser/sqlite/parser_antlr_visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index f877ade..60fbb8f 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -231,7 +231,7 @@ func newAlterTableWith(ctx antlr.IAlter_table_stmtContext) query.AlterTable {
 		opts = append(opts, query.WithAlterTableAddIndex(index))
 	}
 	if ctx := ctx.Drop_table_column(); ctx != nil {
-		column := query.NewColumnWithOptions(query.WithColumnName(ctx.GetText()))
+		column := query.NewColumnWithOptions(query.WithColumnName(strings.UnEscapeNameString(ctx.Column_name().GetText())))
 		opts = append(opts, query.WithAlterTableDropColumn(column))
 	}
 	tblName := ctx.GetTarget_table_name().GetText()
-- 
2.43.0


From 02ddb278af8d61c3852a32888ae909c90d1a6fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:11 +0000
Subject: [PATCH 09/74] fix: render GROUP BY before ORDER BY and LIMIT

---
 sql/query/select.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sql/query/select.go b/sql/query/select.go
index 04e2f67..4708e57 100644
--- a/sql/query/select.go
+++ b/sql/query/select.go
@@ -137,6 +137,10 @@ func (stmt *selectStmt) String() string {
 	if stmt.HasConditions() {
 		strs = append(strs, "WHERE", stmt.Condition.String())
 	}
+	groupBy := stmt.groupBy.String()
+	if 0 < len(groupBy) {
+		strs = append(strs, groupBy)
+	}
 	orderBy := stmt.orderBy.String()
 	if 0 < len(orderBy) {
 		strs = append(strs, orderBy)
@@ -145,9 +149,5 @@ func (stmt *selectStmt) String() string {
 	if 0 < len(limit) {
 		strs = append(strs, limit)
 	}
-	groupBy := stmt.groupBy.String()
-	if 0 < len(groupBy) {
-		strs = append(strs, groupBy)
-	}
 	return strings.JoinWithSpace(strs)
 }
-- 
2.43.0


From f777b8cd7e9126414f53eacf194620d441017b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:34 +0000
Subject: [PATCH 10/74] fix: read LIMIT offset, count in that order

---
 sql/parser/sqlite/parser_antlr_visitor.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 60fbb8f..14fffa2 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -591,6 +591,9 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 				if err != nil {
 					offset = 0
 				}
+				if ctx.COMMA() != nil { // LIMIT offset, limit
+					offset, limit = limit, offset
+				}
 			}
 			opts = append(opts, query.WithSelectLimit(offset, limit))
 		}
-- 
2.43.0


From 7fe7cc456dfda85d44e510fd111c3895b72076c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:57 +0000
Subject: [PATCH 11/74] fix: keep ORDER BY terms without a direction

---
 sql/parser/sqlite/parser_antlr_visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 14fffa2..58a6b03 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -562,7 +562,7 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 			orders := []query.Order{}
 			for _, order := range orderBy {
 				orderColumn := order.Expr().GetText()
-				orderType := query.OrderNone
+				orderType := query.OrderAsc
 				if orderSpec := order.Asc_desc(); orderSpec != nil {
 					orderType = query.NewOrderTypeWith(orderSpec.GetText())
 				}
-- 
2.43.0


From b0df4724a1bdf8876e5849e139a5428f6203b81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:21 +0000
Subject: [PATCH 12/74] fix: reject UPDATE whose assigned value cannot be
 represented

---
 sql/parser/sqlite/parser_antlr_visitor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 58a6b03..4a1165a 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -507,6 +507,8 @@ func newUpdateWith(ctx antlr.IUpdate_stmtContext) query.Update {
 				opts = append(opts, query.WithColumnFunctionExecutor(executor))
 				opts = append(opts, query.WithColumnArguments(args))
 			}
+		} else {
+			return nil
 		}
 		columns = append(columns, query.NewColumnWithOptions(opts...))
 	}
-- 
2.43.0


From e2086e348b4cd5247dc2f371a47c8b2603c0f8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:46 +0000
Subject: [PATCH 13/74] fix: reject INSERT whose values cannot be represented

---
 sql/parser/sqlite/parser_antlr_visitor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 4a1165a..b96047b 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -474,6 +474,8 @@ func newInsertWith(ctx antlr.IInsert_stmtContext) query.Insert {
 							query.WithColumnLiteral(newBindParamWith(v))))
 					valueIdx++
 				}
+			} else {
+				return nil
 			}
 		}
 		values = append(values, columns)
-- 
2.43.0


From 499f74bfb3e49fd936fab080f34eddc54e2b59c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:11 +0000
Subject: [PATCH 14/74] fix: name FROM tables without their alias

---
 sql/parser/sqlite/parser_antlr_visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index b96047b..9747a46 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -544,7 +544,7 @@ func newSelectWith(ctx antlr.ISelect_stmtContext) query.Select {
 				if schema := tbl.Schema_name(); schema != nil {
 					ops = append(ops, query.WithTableSchema(schema.GetText()))
 				}
-				tbls = append(tbls, query.NewTableWith(tbl.GetText(), ops...))
+				tbls = append(tbls, query.NewTableWith(tbl.Table_name().GetText(), ops...))
 			}
 		}
 		if w := parentQuery.GetWhereExpr(); w != nil {
-- 
2.43.0


From ad20d8989d8f307b4c4836b297819110a20c5927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:59 +0000
Subject: [PATCH 15/74] fix: reject INSERT rows with more values than columns

---
 sql/parser/sqlite/parser_antlr_visitor.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 9747a46..a2dabb7 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -461,19 +461,21 @@ func newInsertWith(ctx antlr.IInsert_stmtContext) query.Insert {
 					query.NewColumnWithOptions(query.WithColumnName(v.Column_name().GetText()),
 						query.WithColumnLiteral(newLiteralValueWith(v.Literal_value()))))
 			} else if v := expr.Literal_value(); v != nil {
-				if valueIdx < len(names) {
-					columns = append(columns,
-						query.NewColumnWithOptions(query.WithColumnName(names[valueIdx]),
-							query.WithColumnLiteral(newLiteralValueWith(v))))
-					valueIdx++
+				if len(names) <= valueIdx {
+					return nil
 				}
+				columns = append(columns,
+					query.NewColumnWithOptions(query.WithColumnName(names[valueIdx]),
+						query.WithColumnLiteral(newLiteralValueWith(v))))
+				valueIdx++
 			} else if v := expr.Bind_param(); v != nil {
-				if valueIdx < len(names) {
-					columns = append(columns,
-						query.NewColumnWithOptions(query.WithColumnName(names[valueIdx]),
-							query.WithColumnLiteral(newBindParamWith(v))))
-					valueIdx++
+				if len(names) <= valueIdx {
+					return nil
 				}
+				columns = append(columns,
+					query.NewColumnWithOptions(query.WithColumnName(names[valueIdx]),
+						query.WithColumnLiteral(newBindParamWith(v))))
+				valueIdx++
 			} else {
 				return nil
 			}
-- 
2.43.0


From e74325272e368e29f6cedf580770d63c1a88fd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:19 +0000
Subject: [PATCH 16/74] fix: name UPDATE and DELETE tables without alias and
 index hint

---
 sql/parser/sqlite/parser_antlr_visitor.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index a2dabb7..40c3003 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -486,7 +486,7 @@ func newInsertWith(ctx antlr.IInsert_stmtContext) query.Insert {
 }
 
 func newUpdateWith(ctx antlr.IUpdate_stmtContext) query.Update {
-	tbl := query.NewTableWith(ctx.GetTable().GetText())
+	tbl := newQualifiedTableWith(ctx.GetTable())
 	columns := query.NewColumns()
 	for _, set := range ctx.AllUpdate_column_set() {
 		setColumn := set.Column_name()
@@ -629,8 +629,16 @@ func newSelectorFrom(ctx antlr.IResult_columnContext) (query.Selector, error) {
 	return query.NewColumnWithOptions(query.WithColumnName(ctx.GetText())), nil
 }
 
+func newQualifiedTableWith(ctx antlr.IQualified_table_nameContext) query.Table {
+	opts := []query.TableOption{}
+	if schema := ctx.Schema_name(); schema != nil {
+		opts = append(opts, query.WithTableSchema(schema.GetText()))
+	}
+	return query.NewTableWith(ctx.Table_name().GetText(), opts...)
+}
+
 func newDeleteWith(ctx antlr.IDelete_stmtContext) query.Delete {
-	tbl := query.NewTableWith(ctx.GetTable().GetText())
+	tbl := newQualifiedTableWith(ctx.GetTable())
 	where := query.NewCondition()
 	if w := ctx.GetWhereExpr(); w != nil {
 		expr := newExprWith(w)
-- 
2.43.0


From af62205206af4bd7b91514ede6f82474d59535ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:42 +0000
Subject: [PATCH 17/74] fix: drop the named column or index from a schema

---
 sql/query/schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sql/query/schema.go b/sql/query/schema.go
index 6b9451a..9530b78 100644
--- a/sql/query/schema.go
+++ b/sql/query/schema.go
@@ -178,7 +178,7 @@ func (schema *schema) AddColumn(column Column) error {
 // DropColumn drops a column by the specified name.
 func (schema *schema) DropColumn(name string) error {
 	for n, column := range schema.columns {
-		if strings.EqualFold(column.Name(), name) {
+		if !strings.EqualFold(column.Name(), name) {
 			continue
 		}
 		schema.columns = append(schema.columns[:n], schema.columns[n+1:]...)
@@ -196,7 +196,7 @@ func (schema *schema) AddIndex(index Index) error {
 // DropIndex drops an index by the specified name.
 func (schema *schema) DropIndex(name string) error {
 	for n, index := range schema.indexes {
-		if strings.EqualFold(index.Name(), name) {
+		if !strings.EqualFold(index.Name(), name) {
 			continue
 		}
 		schema.indexes = append(schema.indexes[:n], schema.indexes[n+1:]...)
-- 
2.43.0


From 004f8f9a7247eff808a5187368ee3ab4a6991978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:06 +0000
Subject: [PATCH 18/74] fix: render the dropped index of ALTER TABLE

---
 sql/query/alter_table.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sql/query/alter_table.go b/sql/query/alter_table.go
index f394e2a..72f0a72 100644
--- a/sql/query/alter_table.go
+++ b/sql/query/alter_table.go
@@ -228,5 +228,13 @@ func (stmt *alterTableStmt) String() string {
 				c.Name(),
 			}...)
 	}
+	if i, ok := stmt.DropIndex(); ok {
+		elems = append(elems,
+			[]string{
+				"DROP",
+				"INDEX",
+				i.Name(),
+			}...)
+	}
 	return strings.JoinWithSpace(elems)
 }
-- 
2.43.0


From 4ace6de00d7a2e63807db4759e23ca0ac8b33de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:28 +0000
Subject: [PATCH 19/74] fix: keep the quotes inside string literals

---
 sql/util/strings/strings.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sql/util/strings/strings.go b/sql/util/strings/strings.go
index ed6efe7..22c2338 100644
--- a/sql/util/strings/strings.go
+++ b/sql/util/strings/strings.go
@@ -31,12 +31,17 @@ func JoinWithComma(elems []string) string {
 
 // UnEscapeString returns an unescaped string.
 func UnEscapeString(s string) string {
-	return strings.Trim(s, "'\"")
+	for _, quote := range []string{"'", "\""} {
+		if 2 <= len(s) && strings.HasPrefix(s, quote) && strings.HasSuffix(s, quote) {
+			return strings.ReplaceAll(s[1:len(s)-1], quote+quote, quote)
+		}
+	}
+	return s
 }
 
 // EscapeString returns an escaped string.
 func EscapeString(s string) string {
-	return fmt.Sprintf("'%v'", s)
+	return fmt.Sprintf("'%v'", strings.ReplaceAll(s, "'", "''"))
 }
 
 // Equal returns true whether the specified strings are equal.
-- 
2.43.0


From e2102d05ea652fa9de6fb603eb51b1e0697814f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:51 +0000
Subject: [PATCH 20/74] fix: answer for columns without definition or literal

---
 sql/query/column.go  | 27 +++++++++++++++++++++++++++
 sql/query/literal.go |  6 ++++++
 2 files changed, 33 insertions(+)

diff --git a/sql/query/column.go b/sql/query/column.go
index 6a7018b..fa9d14d 100644
--- a/sql/query/column.go
+++ b/sql/query/column.go
@@ -176,10 +176,37 @@ func (col *column) IsName(name string) bool {
 
 // SetValue sets a value.
 func (col *column) SetValue(v any) error {
+	if col.Literal == nil {
+		col.Literal = NewLiteral()
+	}
 	col.Literal.SetValue(v)
 	return col.SetDefinition(col.ColumnDef)
 }
 
+// Constraint returns the column constrains.
+func (col *column) Constraint() Constraint {
+	if col.ColumnDef == nil {
+		return ConstraintNone
+	}
+	return col.ColumnDef.Constraint()
+}
+
+// DataType returns the column data type.
+func (col *column) DataType() DataType {
+	if col.ColumnDef == nil {
+		return UnknownData
+	}
+	return col.ColumnDef.DataType()
+}
+
+// DataTypeSize returns the column data type size.
+func (col *column) DataTypeSize() int {
+	if col.ColumnDef == nil {
+		return 0
+	}
+	return col.ColumnDef.DataTypeSize()
+}
+
 // SetDefinition sets the column definition to update the column value.
 func (col *column) SetDefinition(dataDef ColumnDef) error {
 	col.ColumnDef = dataDef
diff --git a/sql/query/literal.go b/sql/query/literal.go
index add7e82..e9f9628 100644
--- a/sql/query/literal.go
+++ b/sql/query/literal.go
@@ -99,6 +99,9 @@ func (lit *Literal) SetValue(v any) *Literal {
 
 // Value returns the literal value.
 func (lit *Literal) Value() any {
+	if lit == nil {
+		return nil
+	}
 	return lit.v
 }
 
@@ -110,6 +113,9 @@ func (lit *Literal) SetValueType(t LiteralType) *Literal {
 
 // ValueType returns the literal type.
 func (lit *Literal) ValueType() LiteralType {
+	if lit == nil {
+		return UnknownLiteral
+	}
 	return lit.t
 }
 
-- 
2.43.0


From b668bb433011102ab7b72cc152e4e938cb143d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:15 +0000
Subject: [PATCH 21/74] fix: copy the value and the function of a column

---
 sql/query/column.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sql/query/column.go b/sql/query/column.go
index fa9d14d..d1133a9 100644
--- a/sql/query/column.go
+++ b/sql/query/column.go
@@ -264,11 +264,12 @@ func (col *column) SetDefinition(dataDef ColumnDef) error {
 
 // Copy returns a copy of the column.
 func (col *column) Copy() Column {
-	return NewColumnWithOptions(
-		WithColumnName(col.name),
-		WithColumnData(col.ColumnDef),
-		WithColumnLiteral(col.Literal),
-	)
+	cp := *col
+	if col.Literal != nil {
+		lit := *col.Literal
+		cp.Literal = &lit
+	}
+	return &cp
 }
 
 // String returns the string representation.
-- 
2.43.0


From 5839515324fdda8ee9bb397a2625473acab9797c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:40 +0000
Subject: [PATCH 22/74] fix: reject negative column indexes

---
 sql/query/columns.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/query/columns.go b/sql/query/columns.go
index 84603be..b3861dd 100644
--- a/sql/query/columns.go
+++ b/sql/query/columns.go
@@ -61,7 +61,7 @@ func (columns Columns) Selectors() Selectors {
 
 // ColumnAt returns a column by the specified index.
 func (columns Columns) ColumnAt(n int) (Column, error) {
-	if len(columns) <= n {
+	if n < 0 || len(columns) <= n {
 		return nil, newErrColumnIndexOutOfRange(n)
 	}
 	return columns[n], nil
-- 
2.43.0


From a46beac1c74adeb27a4204cb6e7db5e152991949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:04 +0000
Subject: [PATCH 23/74] fix: report functions of selectors

---
 sql/query/selectors_helper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/query/selectors_helper.go b/sql/query/selectors_helper.go
index 44bdf03..889cf7f 100644
--- a/sql/query/selectors_helper.go
+++ b/sql/query/selectors_helper.go
@@ -34,7 +34,7 @@ func (selectors Selectors) IsAsterisk() bool {
 func (selectors Selectors) HasFunction() bool {
 	for _, selector := range selectors {
 		_, ok := selector.Function()
-		if !ok {
+		if ok {
 			return true
 		}
 	}
-- 
2.43.0


From d148009fe9ee169fbad8e302f229c8ae16e13df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:29 +0000
Subject: [PATCH 24/74] fix: name the NAME data type

---
 sql/query/data_type.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sql/query/data_type.go b/sql/query/data_type.go
index 52f9ffc..c44084e 100644
--- a/sql/query/data_type.go
+++ b/sql/query/data_type.go
@@ -110,6 +110,7 @@ var dataTypeStrings = map[DataType]string{
 	SerialType:          "SERIAL",
 	BigSerialType:       "BIGSERIAL",
 	SmallSerialType:     "SMALLSERIAL",
+	NameType:            "NAME",
 }
 
 // NewDataTypeFrom returns a data type from the specified value.
-- 
2.43.0


From fc6677818048862e75a9e6fbf364387a7e489c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:53 +0000
Subject: [PATCH 25/74] fix: return the schema name of a schema

---
 sql/query/schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sql/query/schema.go b/sql/query/schema.go
index 9530b78..79bc82a 100644
--- a/sql/query/schema.go
+++ b/sql/query/schema.go
@@ -93,9 +93,9 @@ func (schema *schema) SchemaTable() Table {
 	return schema.Table
 }
 
-// SchemaName returns the table name.
+// SchemaName returns the schema name.
 func (schema *schema) SchemaName() string {
-	return schema.TableName()
+	return schema.Table.SchemaName()
 }
 
 // SchemaName returns the table name.
-- 
2.43.0


From 722e02fb595b1d5d1b4b3c8484df0b2510b51342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:33 +0000
Subject: [PATCH 26/74] fix: keep the type of columns with precision and scale

---
 sql/query/column_def.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sql/query/column_def.go b/sql/query/column_def.go
index c4f37c7..d3efbd1 100644
--- a/sql/query/column_def.go
+++ b/sql/query/column_def.go
@@ -17,6 +17,7 @@ package query
 import (
 	"fmt"
 	"strconv"
+	std_strings "strings"
 
 	"github.com/cybergarage/go-sqlparser/sql/util/strings"
 )
@@ -74,8 +75,10 @@ func NewDataDefFromStrings(strs []string) (ColumnDef, error) {
 	dt := strs[0]
 	dl := -1
 	if 4 <= len(strs) {
-		if strs[1] == "(" || strs[3] == ")" {
-			v, err := strconv.Atoi(strs[2])
+		if strs[1] == "(" && strs[3] == ")" {
+			// The first number is the length (or the precision) of the type.
+			size, _, _ := std_strings.Cut(strs[2], ",")
+			v, err := strconv.Atoi(size)
 			if err != nil {
 				return nil, newErrInvaidDataDef(strings.JoinWithSpace(strs))
 			}
-- 
2.43.0


From 914a5c519d59386f29a86365339695e763fba6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:08 +0000
Subject: [PATCH 27/74] fix: keep columns declared without a type

---
 sql/parser/sqlite/parser_antlr_visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 40c3003..34e096d 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -395,7 +395,7 @@ func newColumnWith(ctx antlr.IColumn_defContext) (query.Column, bool) {
 
 	typ := ctx.Type_name()
 	if typ == nil {
-		return nil, false
+		return query.NewColumnWithName(name), true
 	}
 
 	dataDefs := []string{}
-- 
2.43.0


From 7f1dcc1e12d9a67409ea589eb6fbb79614a8d55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:19 +0000
Subject: [PATCH 28/74] fix: resolve LOG10 to the LOG10 executor

---
 sql/fn/executor_func.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sql/fn/executor_func.go b/sql/fn/executor_func.go
index ad95c77..1905166 100644
--- a/sql/fn/executor_func.go
+++ b/sql/fn/executor_func.go
@@ -34,10 +34,10 @@ func NewExecutorForName(name string, opts ...ExecutorOption) (Executor, error) {
 		ex = NewRound(opts...)
 	case strings.HasPrefix(upperName, SqrtFunctionName):
 		ex = NewSqrt(opts...)
-	case strings.HasPrefix(upperName, LogFunctionName):
-		ex = NewLog(opts...)
 	case strings.HasPrefix(upperName, Log10FunctionName):
 		ex = NewLog10(opts...)
+	case strings.HasPrefix(upperName, LogFunctionName):
+		ex = NewLog(opts...)
 	case strings.HasPrefix(upperName, ExpFunctionName):
 		ex = NewExp(opts...)
 	case strings.HasPrefix(upperName, PowerFunctionName):
-- 
2.43.0


From 65ce6ab5b291a426efefd2987f345e0e9985c80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:44 +0000
Subject: [PATCH 29/74] fix: IsRegisteredFunction accepts only registered names

---
 sql/fn/names.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/fn/names.go b/sql/fn/names.go
index 83a8021..2d2441b 100644
--- a/sql/fn/names.go
+++ b/sql/fn/names.go
@@ -117,7 +117,7 @@ func IsRegisteredFunction(name string) bool {
 					return true
 				}
 			}
-			if strings.HasPrefix(name, fn+"(") || strings.HasSuffix(name, ")") {
+			if strings.HasPrefix(name, fn+"(") || name == fn+")" {
 				return true
 			}
 		}
-- 
2.43.0


From 38a36e7f7e5cb071f42d2c28aa4ca15205e63438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:09 +0000
Subject: [PATCH 30/74] fix: refuse function names that only start with a
 registered name

---
 sql/fn/aggr_func.go     | 3 +++
 sql/fn/executor_func.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/sql/fn/aggr_func.go b/sql/fn/aggr_func.go
index a55bf99..adc4b7c 100644
--- a/sql/fn/aggr_func.go
+++ b/sql/fn/aggr_func.go
@@ -40,6 +40,9 @@ func WithAggregatorGroupBys(groups ...GroupBy) AggregatorOption {
 // NewAggregatorForName creates an Aggregator instance for the specified function name.
 func NewAggregatorForName(name string, opts ...AggregatorOption) (Aggregator, error) {
 	upperName := strings.ToUpper(name)
+	if !IsRegisteredFunction(upperName) {
+		return nil, fmt.Errorf("%w aggregator: %s", ErrNotSupported, name)
+	}
 	switch {
 	case strings.HasPrefix(upperName, SumFunctionName):
 		return NewSum(opts...)
diff --git a/sql/fn/executor_func.go b/sql/fn/executor_func.go
index 1905166..9c1096e 100644
--- a/sql/fn/executor_func.go
+++ b/sql/fn/executor_func.go
@@ -21,6 +21,9 @@ import (
 // NewExecutorForName returns a function executor with the specified name.
 func NewExecutorForName(name string, opts ...ExecutorOption) (Executor, error) {
 	upperName := strings.ToUpper(name)
+	if !IsRegisteredFunction(upperName) {
+		return nil, NewErrNotSupportedFunction(name)
+	}
 	var ex Executor
 	switch {
 	// Math.
-- 
2.43.0


From ca3ebda4f3cc230f66cbbc4f35bef29ca98cc6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:33 +0000
Subject: [PATCH 31/74] fix: RegisteredFunctionNames does not expose the
 registry

---
 sql/fn/names.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sql/fn/names.go b/sql/fn/names.go
index 2d2441b..67896a7 100644
--- a/sql/fn/names.go
+++ b/sql/fn/names.go
@@ -15,6 +15,7 @@
 package fn
 
 import (
+	"slices"
 	"strings"
 )
 
@@ -96,7 +97,7 @@ var registeredFunctionNames = []string{
 
 // RegisteredFunctionNames returns a list of all registered function names.
 func RegisteredFunctionNames() []string {
-	return registeredFunctionNames
+	return slices.Clone(registeredFunctionNames)
 }
 
 // IsRegisteredFunction checks if the given name matches any registered function name pattern.
-- 
2.43.0


From b067e2ea15c13dc1fc158746d6abdddee9697b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:59 +0000
Subject: [PATCH 32/74] fix: derive the function type from the normalized name

---
 sql/fn/func_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/fn/func_impl.go b/sql/fn/func_impl.go
index 4c13bf9..ff7840d 100644
--- a/sql/fn/func_impl.go
+++ b/sql/fn/func_impl.go
@@ -49,7 +49,7 @@ func NewFunction(opts ...FunctionOption) Function {
 func WithFunctionName(name string) FunctionOption {
 	return func(fn *function) {
 		fn.SetName(name)
-		t, err := NewFunctionTypeForName(name)
+		t, err := NewFunctionTypeForName(fn.name)
 		if err == nil {
 			fn.typ = t
 		}
-- 
2.43.0


From 151ee2fb3ffb89c21cbf9bbb166d93c6bc2fb3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:23 +0000
Subject: [PATCH 33/74] fix: WithFunctionAggregator keeps the given aggregator

---
 sql/fn/func_impl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sql/fn/func_impl.go b/sql/fn/func_impl.go
index ff7840d..27fad05 100644
--- a/sql/fn/func_impl.go
+++ b/sql/fn/func_impl.go
@@ -75,6 +75,7 @@ func WithFunctionExecutor(executor Executor) FunctionOption {
 // WithFunctionAggregator sets the function aggregator.
 func WithFunctionAggregator(aggregator Aggregator) FunctionOption {
 	return func(fn *function) {
+		fn.aggregator = aggregator
 		fn.name = aggregator.Name()
 		fn.typ = AggregateFunction
 	}
-- 
2.43.0


From 75dac1e28d22e4008daf964a17cf030d46be9e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:47 +0000
Subject: [PATCH 34/74] fix: the % operator does not panic on a zero divisor

---
 sql/fn/arith_func.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sql/fn/arith_func.go b/sql/fn/arith_func.go
index dcdc182..f229768 100644
--- a/sql/fn/arith_func.go
+++ b/sql/fn/arith_func.go
@@ -85,6 +85,9 @@ func NewModOperator(opts ...ExecutorOption) Executor {
 	return NewArithFunctionWith(
 		ModOperatorID,
 		func(v1, v2 float64) (float64, error) {
+			if int(v2) == 0 {
+				return 0, newErrInvalidArguments(ModOperatorID, v1, v2)
+			}
 			return (float64(int(v1) % int(v2))), nil
 		},
 		opts...,
-- 
2.43.0


From 8a4be01ff149195309a97775f41e4d33320bedbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:11 +0000
Subject: [PATCH 35/74] fix: SQRT(0) is not a negative value

---
 sql/fn/math_func.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/fn/math_func.go b/sql/fn/math_func.go
index c1d3cd5..832fb9b 100644
--- a/sql/fn/math_func.go
+++ b/sql/fn/math_func.go
@@ -86,7 +86,7 @@ func NewSqrt(opts ...ExecutorOption) Executor {
 				return nil, newErrInvalidArguments(SqrtFunctionName, args)
 			}
 			v := args[0]
-			if v <= 0 {
+			if v < 0 {
 				return nil, newErrNegativeValue(args)
 			}
 			return math.Sqrt(v), nil
-- 
2.43.0


From 0b3f45728214ea86f6b9e14aa89b60eae389528e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:36 +0000
Subject: [PATCH 36/74] fix: RAND never returns 1.0

---
 sql/fn/math_func.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/fn/math_func.go b/sql/fn/math_func.go
index 832fb9b..3728631 100644
--- a/sql/fn/math_func.go
+++ b/sql/fn/math_func.go
@@ -241,7 +241,7 @@ func NewRand(opts ...ExecutorOption) Executor {
 			}
 			// Convert bytes to uint64 and then to float64 in [0.0, 1.0)
 			n := binary.BigEndian.Uint64(b[:])
-			return float64(n&0x7FFFFFFFFFFFFFFF) / float64(0x7FFFFFFFFFFFFFFF), nil
+			return float64(n>>11) / float64(1<<53), nil
 		},
 		opts...,
 	)
-- 
2.43.0


From d1cf7859465d3dd62fcf46ce8ff943be1c8988b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:01 +0000
Subject: [PATCH 37/74] fix: MIN of positive infinities is positive infinity

---
 sql/fn/min.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/fn/min.go b/sql/fn/min.go
index 922ef9d..2b48937 100644
--- a/sql/fn/min.go
+++ b/sql/fn/min.go
@@ -46,7 +46,7 @@ func NewMin(opts ...MinOption) (*Min, error) {
 		withAggrName("MIN"),
 		withAggrResetFunc(
 			func(aggr *aggrImpl) (float64, error) {
-				return math.MaxFloat64, nil
+				return math.Inf(1), nil
 			},
 		),
 		withAggrAggreateFunc(
-- 
2.43.0


From ba94d1da0a7560324c050eb776ef35ca335248fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:49 +0000
Subject: [PATCH 38/74] fix: aggregators return groups in first-seen order, not
 map order

---
 sql/fn/aggr_impl.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sql/fn/aggr_impl.go b/sql/fn/aggr_impl.go
index b3d71c6..0ef0dad 100644
--- a/sql/fn/aggr_impl.go
+++ b/sql/fn/aggr_impl.go
@@ -16,6 +16,7 @@ package fn
 
 import (
 	"fmt"
+	"slices"
 	"sort"
 
 	"github.com/cybergarage/go-safecast/safecast"
@@ -39,6 +40,7 @@ type aggrImpl struct {
 	groupBys    []GroupBy
 	groupBySet  GroupBySet
 	groupKeys   map[GroupBySet][]any
+	groupOrder  []GroupBySet
 	groupAggrs  map[GroupBySet][]float64
 	groupCounts map[GroupBySet]int
 	resetFunc   AggrResetFunc
@@ -60,6 +62,7 @@ func newAggr() *aggrImpl {
 		aggrs:       make([]float64, 0),
 		counts:      0,
 		groupKeys:   make(map[GroupBySet][]any),
+		groupOrder:  make([]GroupBySet, 0),
 		groupAggrs:  make(map[GroupBySet][]float64),
 		groupCounts: make(map[GroupBySet]int),
 		resetFunc:   nil,
@@ -203,6 +206,8 @@ func (aggr *aggrImpl) Reset(opts ...any) error {
 
 	aggr.counts = 0
 
+	aggr.groupKeys = make(map[GroupBySet][]any)
+	aggr.groupOrder = make([]GroupBySet, 0)
 	aggr.groupAggrs = make(map[GroupBySet][]float64)
 	aggr.groupCounts = make(map[GroupBySet]int)
 
@@ -239,6 +244,7 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 		}
 		if _, ok := aggr.groupAggrs[groupSetKey]; !ok {
 			aggr.groupKeys[groupSetKey] = groupKeys
+			aggr.groupOrder = append(aggr.groupOrder, groupSetKey)
 			aggr.groupCounts[groupSetKey] = 0
 			aggr.groupAggrs[groupSetKey] = make([]float64, (len(aggr.columns) - groupKeysCnt))
 			for n := range aggr.groupAggrs[groupSetKey] {
@@ -330,10 +336,7 @@ func (aggr *aggrImpl) Finalize(opts ...any) (ResultSet, error) {
 	rows := make([]Row, 0)
 	_, isGrouping := aggr.GroupBys()
 	if isGrouping {
-		groupSetKeys := make([]GroupBySet, 0, len(aggr.groupAggrs))
-		for groupSetKey := range aggr.groupAggrs {
-			groupSetKeys = append(groupSetKeys, groupSetKey)
-		}
+		groupSetKeys := slices.Clone(aggr.groupOrder)
 
 		orderByAscFunc := func(i, j int) bool {
 			groupSetKeyiSlice := aggr.groupKeys[groupSetKeys[i]]
-- 
2.43.0


From 415887a94894a22246df9b2a6ea6d2bb19c18762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:14 +0000
Subject: [PATCH 39/74] fix: descending group order is a strict order

---
 sql/fn/aggr_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/fn/aggr_impl.go b/sql/fn/aggr_impl.go
index 0ef0dad..885d760 100644
--- a/sql/fn/aggr_impl.go
+++ b/sql/fn/aggr_impl.go
@@ -364,7 +364,7 @@ func (aggr *aggrImpl) Finalize(opts ...any) (ResultSet, error) {
 		}
 
 		orderByDescFunc := func(i, j int) bool {
-			return !orderByAscFunc(i, j)
+			return orderByAscFunc(j, i)
 		}
 
 		switch orderBy {
-- 
2.43.0


From 6b400004456a9a5b64a02554ac8b017dc03418ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:39 +0000
Subject: [PATCH 40/74] fix: aggregators do not keep the group values in the
 row of the caller

---
 sql/fn/aggr_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/fn/aggr_impl.go b/sql/fn/aggr_impl.go
index 885d760..0ea0251 100644
--- a/sql/fn/aggr_impl.go
+++ b/sql/fn/aggr_impl.go
@@ -237,7 +237,7 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 	groupBys, isGrouping := aggr.GroupBys()
 	if isGrouping {
 		groupKeysCnt := len(groupBys)
-		groupKeys := row[:groupKeysCnt]
+		groupKeys := slices.Clone(row[:groupKeysCnt])
 		groupSetKey, err := NewGroupBySetKey(groupBys, groupKeys)
 		if err != nil {
 			return err
-- 
2.43.0


From 00d6a6e06b2f034df95807392eb4258abb5d0103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:04 +0000
Subject: [PATCH 41/74] fix: aggregate maps by the group columns

---
 sql/fn/aggr_impl.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sql/fn/aggr_impl.go b/sql/fn/aggr_impl.go
index 0ea0251..c3e531a 100644
--- a/sql/fn/aggr_impl.go
+++ b/sql/fn/aggr_impl.go
@@ -288,6 +288,13 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 // AggregateMap aggregates a map of data using the aggregator.
 func (aggr *aggrImpl) AggregateMap(m map[string]any) error {
 	row := make([]any, 0, len(aggr.columns))
+	for _, groupBy := range aggr.groupBys {
+		v, ok := m[groupBy]
+		if !ok {
+			return fmt.Errorf("column (%s) %w in map", groupBy, ErrNotFound)
+		}
+		row = append(row, v)
+	}
 	for _, arg := range aggr.args {
 		var v any
 		var ok bool
-- 
2.43.0


From 0d0616f9d52c05a9fae4808b29a468249bf67bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:30 +0000
Subject: [PATCH 42/74] fix: distinct group values have distinct group keys

---
 sql/fn/groupby.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sql/fn/groupby.go b/sql/fn/groupby.go
index 9f9fe7f..a77998c 100644
--- a/sql/fn/groupby.go
+++ b/sql/fn/groupby.go
@@ -16,6 +16,7 @@ package fn
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 
 	"github.com/cybergarage/go-safecast/safecast"
@@ -51,12 +52,16 @@ func NewGroupBySetKey(groupBys []GroupBy, groupKeys []any) (GroupBySet, error) {
 	}
 	groupBySet := []GroupBy{}
 	for _, groupKey := range groupKeys {
+		if groupKey == nil {
+			groupBySet = append(groupBySet, NewGroupBy("NULL"))
+			continue
+		}
 		var groupKeyStr string
 		err := safecast.ToString(groupKey, &groupKeyStr)
 		if err != nil {
 			return "", err
 		}
-		groupBySet = append(groupBySet, NewGroupBy(groupKeyStr))
+		groupBySet = append(groupBySet, NewGroupBy(strconv.Quote(groupKeyStr)))
 	}
 	return NewGroupBySet(groupBySet...), nil
 }
-- 
2.43.0


From bb71c0eb23864fdc12231943ecb959cc70e1cbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:56 +0000
Subject: [PATCH 43/74] fix: a rejected row leaves the aggregator unchanged

---
 sql/fn/aggr_impl.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sql/fn/aggr_impl.go b/sql/fn/aggr_impl.go
index c3e531a..867a244 100644
--- a/sql/fn/aggr_impl.go
+++ b/sql/fn/aggr_impl.go
@@ -235,6 +235,11 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 	}
 
 	groupBys, isGrouping := aggr.GroupBys()
+	for n, rv := range row[len(groupBys):] {
+		if _, err := toFloat64(rv); err != nil {
+			return fmt.Errorf("[%d] %w row : %w", n, ErrInvalid, err)
+		}
+	}
 	if isGrouping {
 		groupKeysCnt := len(groupBys)
 		groupKeys := slices.Clone(row[:groupKeysCnt])
-- 
2.43.0


From 01784da2507f76d9038635ce6e3bf4480ef6b508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:22 +0000
Subject: [PATCH 44/74] fix: aggregator sets skip exactly the grouping columns

---
 sql/fn/aggr_set.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/sql/fn/aggr_set.go b/sql/fn/aggr_set.go
index 4608a1e..9f728b3 100644
--- a/sql/fn/aggr_set.go
+++ b/sql/fn/aggr_set.go
@@ -65,7 +65,10 @@ func (aggrSet *AggregatorSet) Aggregate(v any) error {
 // Finalize finalizes the aggregation and returns the result set.
 func (aggrSet *AggregatorSet) Finalize() (ResultSet, error) {
 	reseltSets := []ResultSet{}
+	groupCnts := []int{}
 	for _, aggr := range *aggrSet {
+		groupBys, _ := aggr.GroupBys()
+		groupCnts = append(groupCnts, len(groupBys))
 		result, err := aggr.Finalize()
 		if err != nil {
 			return nil, err
@@ -79,8 +82,8 @@ func (aggrSet *AggregatorSet) Finalize() (ResultSet, error) {
 		case 0:
 			columns = append(columns, resultSet.Columns()...)
 		default:
-			// Skip the first column as it is already included
-			columns = append(columns, resultSet.Columns()[1:]...)
+			// Skip the grouping columns as they are already included
+			columns = append(columns, resultSet.Columns()[groupCnts[n]:]...)
 		}
 	}
 
@@ -100,14 +103,10 @@ func (aggrSet *AggregatorSet) Finalize() (ResultSet, error) {
 				if len(rows) <= rowNo {
 					return nil, fmt.Errorf("row %d not found in result set %d", rowNo, resultSetNo)
 				}
-				switch len(row) {
-				case 0:
+				if len(row) < groupCnts[resultSetNo] {
 					return nil, fmt.Errorf("row %d is empty in result set %d", rowNo, resultSetNo)
-				case 1:
-					rows[rowNo] = append(rows[rowNo], row[0])
-				default:
-					rows[rowNo] = append(rows[rowNo], row[1:]...) // Skip the first grouping column
 				}
+				rows[rowNo] = append(rows[rowNo], row[groupCnts[resultSetNo]:]...) // Skip the grouping columns
 			}
 			rowNo++
 		}
-- 
2.43.0


From 47520ab435c633b137f07277e2517577131b76d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:00 +0000
Subject: [PATCH 45/74] fix: error constructors wrap the errors they are named
 after

---
 sql/errors/errors.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sql/errors/errors.go b/sql/errors/errors.go
index cf40601..5698002 100644
--- a/sql/errors/errors.go
+++ b/sql/errors/errors.go
@@ -50,15 +50,15 @@ func NewErrNotImplemented(s string) error {
 
 // NewErrNotExist returns an error for a not exist.
 func NewErrNotExist(name string) error {
-	return fmt.Errorf("%s is not exists", name)
+	return fmt.Errorf("%s is %w", name, ErrNotExist)
 }
 
 // NewErrExist returns an error for a exist.
 func NewErrExist(name string) error {
-	return fmt.Errorf("%s is not exists", name)
+	return fmt.Errorf("%s is %w", name, ErrExist)
 }
 
 // NewErrNotSupported returns an error for a not supported.
 func NewErrNotSupported(name string) error {
-	return fmt.Errorf("%s is not supported", name)
+	return fmt.Errorf("%s is %w", name, ErrNotSupported)
 }
-- 
2.43.0


From 9966b64808d20de035b64036505e9d25acb050f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:26 +0000
Subject: [PATCH 46/74] fix: combined column constraints have a string
 representation

---
 sql/query/constraint.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/sql/query/constraint.go b/sql/query/constraint.go
index f00ea89..dcbf2ed 100644
--- a/sql/query/constraint.go
+++ b/sql/query/constraint.go
@@ -14,6 +14,10 @@
 
 package query
 
+import (
+	"github.com/cybergarage/go-sqlparser/sql/util/strings"
+)
+
 // Constraint represents a column constraint.
 type Constraint int
 
@@ -42,13 +46,15 @@ func (c Constraint) IsUnique() bool {
 
 // String returns the string representation.
 func (c Constraint) String() string {
-	switch c {
-	case PrimaryKeyConstraint:
-		return "PRIMARY KEY"
-	case NotNullConstraint:
-		return "NOT NULL"
-	case UniqueConstraint:
-		return "UNIQUE"
+	strs := []string{}
+	if c.IsPrimaryKey() {
+		strs = append(strs, "PRIMARY KEY")
+	}
+	if c.IsNotNull() {
+		strs = append(strs, "NOT NULL")
+	}
+	if c.IsUnique() {
+		strs = append(strs, "UNIQUE")
 	}
-	return ""
+	return strings.JoinWithSpace(strs)
 }
-- 
2.43.0


From 6e815704498debcc146772a51e7d955d8015da76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:50 +0000
Subject: [PATCH 47/74] fix: result sets yield only the rows between the offset
 and the limit

---
 .../response/resultset/resultset_impl.go      | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/sql/query/response/resultset/resultset_impl.go b/sql/query/response/resultset/resultset_impl.go
index 97502d3..d018012 100644
--- a/sql/query/response/resultset/resultset_impl.go
+++ b/sql/query/response/resultset/resultset_impl.go
@@ -118,21 +118,31 @@ func (rs *resultset) RowsAffected() uint {
 
 // Next returns the next row.
 func (rs *resultset) Next() bool {
-	if rs.rowCursor < rs.offset {
-		rs.rowCursor = rs.offset
+	first, last := rs.window()
+	if rs.rowCursor < first {
+		rs.rowCursor = first
+	}
+	if last < rs.rowCursor {
+		return false
 	}
 	rs.rowCursor++
-	if 0 < rs.limit {
-		if (rs.offset + rs.limit) < rs.rowCursor {
-			return false
-		}
+	return rs.rowCursor <= last
+}
+
+// window returns the range of the rows selected by the offset and the limit.
+func (rs *resultset) window() (uint, uint) {
+	last := uint(len(rs.rows))
+	first := min(rs.offset, last)
+	if 0 < rs.limit && rs.limit < (last-first) {
+		last = first + rs.limit
 	}
-	return rs.rowCursor <= uint(len(rs.rows))
+	return first, last
 }
 
 // Row returns the current row.
 func (rs *resultset) Row() (Row, error) {
-	if (rs.rowCursor == 0) || (uint(len(rs.rows)) < rs.rowCursor) {
+	first, last := rs.window()
+	if (rs.rowCursor <= first) || (last < rs.rowCursor) {
 		return nil, errors.ErrNoRows
 	}
 	row := rs.rows[rs.rowCursor-1]
-- 
2.43.0


From 21cc391020f3641f43add08de243e35ce79ae34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:15 +0000
Subject: [PATCH 48/74] fix: negative row indexes are refused

---
 sql/query/response/resultset/row_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/query/response/resultset/row_impl.go b/sql/query/response/resultset/row_impl.go
index 2901b44..75359ff 100644
--- a/sql/query/response/resultset/row_impl.go
+++ b/sql/query/response/resultset/row_impl.go
@@ -134,7 +134,7 @@ func (row *row) Values() []any {
 // ValueAt returns the row value at the specified index.
 func (row *row) ValueAt(index int) (any, error) {
 	values := row.Values()
-	if len(values) <= index {
+	if index < 0 || len(values) <= index {
 		return nil, errors.ErrNotExist
 	}
 	return values[index], nil
-- 
2.43.0


From 287ad2062968c8cd697269cccb4db122d7704332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:40 +0000
Subject: [PATCH 49/74] fix: result set columns are functions only if they have
 one

---
 sql/query/response/resultset/column_impl.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/sql/query/response/resultset/column_impl.go b/sql/query/response/resultset/column_impl.go
index a455d90..3c99506 100644
--- a/sql/query/response/resultset/column_impl.go
+++ b/sql/query/response/resultset/column_impl.go
@@ -16,15 +16,10 @@ package resultset
 
 import (
 	"fmt"
-	"regexp"
 
 	"github.com/cybergarage/go-sqlparser/sql/fn"
 )
 
-var funcColumnNameRegex = regexp.MustCompile(
-	`^([a-zA-Z_][a-zA-Z0-9_]*)(\((.*)\))?$`,
-)
-
 type column struct {
 	name string
 	t    DataType
@@ -99,10 +94,7 @@ func (col *column) IsAsterisk() bool {
 
 // IsFunction returns true if the column is a function.
 func (col *column) IsFunction() bool {
-	if funcColumnNameRegex.MatchString(col.name) {
-		return true
-	}
-	return true
+	return col.fn != nil
 }
 
 // Function returns the function associated with the column.
-- 
2.43.0


From 93468ee859c9c02a6c79338d124a87f096c968a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:04 +0000
Subject: [PATCH 50/74] fix: the columns of a row object are in a defined order

---
 sql/query/response/resultset/schema_helper.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sql/query/response/resultset/schema_helper.go b/sql/query/response/resultset/schema_helper.go
index b04c021..75106f6 100644
--- a/sql/query/response/resultset/schema_helper.go
+++ b/sql/query/response/resultset/schema_helper.go
@@ -16,6 +16,8 @@ package resultset
 
 import (
 	"fmt"
+	"maps"
+	"slices"
 
 	"github.com/cybergarage/go-sqlparser/sql/query"
 )
@@ -72,8 +74,8 @@ func WithSchemaSelectors(selectors query.Selectors) SchemaOption {
 func WithSchemaRowObject(rowObj map[string]any) SchemaOption {
 	return func(schema *schema) error {
 		columns := []Column{}
-		for key, value := range rowObj {
-			dataType, err := query.NewDataTypeForValue(value)
+		for _, key := range slices.Sorted(maps.Keys(rowObj)) {
+			dataType, err := query.NewDataTypeForValue(rowObj[key])
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From f836985b6d5d07c5af8e7f40dde8e9971d43858d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:58 +0000
Subject: [PATCH 51/74] fix: aggregated result sets report selectors of unknown
 columns

---
 sql/query/response/resultset/resultset_aggr.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sql/query/response/resultset/resultset_aggr.go b/sql/query/response/resultset/resultset_aggr.go
index de94a3e..13d94d9 100644
--- a/sql/query/response/resultset/resultset_aggr.go
+++ b/sql/query/response/resultset/resultset_aggr.go
@@ -110,12 +110,18 @@ func NewAggregatedResultSetFrom(opts ...AggregatedResultSetOptions) (ResultSet,
 
 	// Generate a new schema for the aggregated result set
 
-	rsSchema := srcRs.Schema()
-	aggrSchema := NewSchema(
-		WithSchemaDatabaseName(rsSchema.DatabaseName()),
+	var dbName string
+	if rsSchema := srcRs.Schema(); rsSchema != nil {
+		dbName = rsSchema.DatabaseName()
+	}
+	aggrSchema, err := NewSchemaFrom(
+		WithSchemaDatabaseName(dbName),
 		WithSchemaTableSchema(tblSchema),
 		WithSchemaSelectors(selectors),
 	)
+	if err != nil {
+		return nil, err
+	}
 
 	// Generate a new aggregated rows
 
-- 
2.43.0


From bc579e1669a03ba6ef7ae822336ab5e3020e0818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:17 +0000
Subject: [PATCH 52/74] fix: INSERT keeps the schema of the table

---
 sql/parser/sqlite/parser_antlr_visitor.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 34e096d..7760a68 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -442,7 +442,11 @@ func newIndexedColumnWith(ctx antlr.IIndexed_columnContext) query.Column {
 
 func newInsertWith(ctx antlr.IInsert_stmtContext) query.Insert {
 	tblName := strings.UnEscapeNameString(ctx.Table_name().GetText())
-	tbl := query.NewTableWith(tblName)
+	tblOpts := []query.TableOption{}
+	if schema := ctx.Schema_name(); schema != nil {
+		tblOpts = append(tblOpts, query.WithTableSchema(strings.UnEscapeNameString(schema.GetText())))
+	}
+	tbl := query.NewTableWith(tblName, tblOpts...)
 	names := []string{}
 	for _, name := range ctx.AllColumn_name() {
 		names = append(names, name.GetText())
-- 
2.43.0


From 878fdc5de2dcaff7d1b7df333bb57df233d165b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:39 +0000
Subject: [PATCH 53/74] fix: CREATE TABLE keeps the schema of the table

---
 sql/parser/sqlite/parser_antlr_visitor.go | 6 +++++-
 sql/query/create_table.go                 | 2 +-
 sql/query/schema.go                       | 7 +++++++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/sql/parser/sqlite/parser_antlr_visitor.go b/sql/parser/sqlite/parser_antlr_visitor.go
index 7760a68..a668401 100644
--- a/sql/parser/sqlite/parser_antlr_visitor.go
+++ b/sql/parser/sqlite/parser_antlr_visitor.go
@@ -351,7 +351,11 @@ func newTableSchemaWith(ctx antlr.ICreate_table_stmtContext) query.Schema {
 		}
 	}
 	// Return schema.
-	return query.NewSchemaWith(tblName, query.WithSchemaColumns(columns), query.WithSchemaIndexes(indexes))
+	opts := []query.SchemaOption{query.WithSchemaColumns(columns), query.WithSchemaIndexes(indexes)}
+	if schema := ctx.Schema_name(); schema != nil {
+		opts = append(opts, query.WithSchemaName(strings.UnEscapeNameString(schema.GetText())))
+	}
+	return query.NewSchemaWith(tblName, opts...)
 }
 
 func newIndexSchemaWith(ctx antlr.ICreate_index_stmtContext) query.Schema {
diff --git a/sql/query/create_table.go b/sql/query/create_table.go
index 46fb256..7c7fbc2 100644
--- a/sql/query/create_table.go
+++ b/sql/query/create_table.go
@@ -71,7 +71,7 @@ func (stmt *createTableStmt) String() string {
 	elems := []string{
 		"CREATE TABLE",
 		stmt.IfNotExistsOpt.String(),
-		stmt.TableName(),
+		stmt.schema.FullTableName(),
 		columnsStr,
 	}
 	return strings.JoinWithSpace(elems)
diff --git a/sql/query/schema.go b/sql/query/schema.go
index 79bc82a..c6c1fe2 100644
--- a/sql/query/schema.go
+++ b/sql/query/schema.go
@@ -74,6 +74,13 @@ func NewSchemaWith(name string, opts ...SchemaOption) Schema {
 	return s
 }
 
+// WithSchemaName returns a schema option to set the schema name of the table.
+func WithSchemaName(name string) func(*schema) {
+	return func(schema *schema) {
+		schema.Table = NewTableWith(schema.Table.TableName(), WithTableSchema(name))
+	}
+}
+
 // WithSchemaColumns returns a schema option to set the columns.
 func WithSchemaColumns(columns Columns) func(*schema) {
 	return func(schema *schema) {
-- 
2.43.0


From 6892c21708190b534997ebd86b493c6a2ab75ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:03 +0000
Subject: [PATCH 54/74] fix: COPY renders the source file as a string

---
 sql/query/copy.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sql/query/copy.go b/sql/query/copy.go
index 49945b4..8c9e148 100644
--- a/sql/query/copy.go
+++ b/sql/query/copy.go
@@ -129,9 +129,13 @@ func (stmt *copyStmt) String() string {
 	if 0 < len(stmt.columns) {
 		strs = append(strs, "("+strings.JoinWithComma(stmt.columns.Names())+")")
 	}
+	source := stmt.Source()
+	if !strconv.EqualFold(source, "STDIN") {
+		source = strings.EscapeString(source)
+	}
 	strs = append(strs,
 		"FROM",
-		stmt.Source(),
+		source,
 		stmt.format.String(),
 	)
 	return strings.JoinWithSpace(strs)
-- 
2.43.0


From d5637806a086ec58fb9ca97ea0afcb127f70ecbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:27 +0000
Subject: [PATCH 55/74] fix: an offset is rendered with its limit

---
 sql/query/limit.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/query/limit.go b/sql/query/limit.go
index afaef1a..d535806 100644
--- a/sql/query/limit.go
+++ b/sql/query/limit.go
@@ -77,7 +77,7 @@ func (limit *limitParam) Limit() uint {
 // String returns the string representation.
 func (limit *limitParam) String() string {
 	strs := []string{}
-	if 0 < limit.limit {
+	if 0 < limit.limit || 0 < limit.offset {
 		strs = append(strs, "LIMIT", fmt.Sprintf("%d", limit.limit))
 	}
 	if 0 < limit.offset {
-- 
2.43.0


From 8dc1dc0419b2e3a3c12948f51352a33e7e46740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:49 +0000
Subject: [PATCH 56/74] fix: altering a schema leaves the column and index
 lists of callers alone

---
 sql/query/schema.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sql/query/schema.go b/sql/query/schema.go
index c6c1fe2..3aa4458 100644
--- a/sql/query/schema.go
+++ b/sql/query/schema.go
@@ -15,6 +15,7 @@
 package query
 
 import (
+	"slices"
 	"strings"
 
 	"github.com/cybergarage/go-sqlparser/sql/errors"
@@ -178,7 +179,7 @@ func (schema *schema) Alter(stmt AlterTable) error {
 
 // AddColumn adds a column.
 func (schema *schema) AddColumn(column Column) error {
-	schema.columns = append(schema.columns, column)
+	schema.columns = append(slices.Clip(schema.columns), column)
 	return nil
 }
 
@@ -188,7 +189,7 @@ func (schema *schema) DropColumn(name string) error {
 		if !strings.EqualFold(column.Name(), name) {
 			continue
 		}
-		schema.columns = append(schema.columns[:n], schema.columns[n+1:]...)
+		schema.columns = slices.Concat(schema.columns[:n], schema.columns[n+1:])
 		return nil
 	}
 	return newErrColumnNotFound(name)
@@ -196,7 +197,7 @@ func (schema *schema) DropColumn(name string) error {
 
 // AddIndex adds an index.
 func (schema *schema) AddIndex(index Index) error {
-	schema.indexes = append(schema.indexes, index)
+	schema.indexes = append(slices.Clip(schema.indexes), index)
 	return nil
 }
 
@@ -206,7 +207,7 @@ func (schema *schema) DropIndex(name string) error {
 		if !strings.EqualFold(index.Name(), name) {
 			continue
 		}
-		schema.indexes = append(schema.indexes[:n], schema.indexes[n+1:]...)
+		schema.indexes = slices.Concat(schema.indexes[:n], schema.indexes[n+1:])
 		return nil
 	}
 	return newErrIndexNotFound(name)
-- 
2.43.0


From eedae709a631c6f384f1a76f643090075b24381e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:12 +0000
Subject: [PATCH 57/74] fix: the column * is an asterisk

---
 sql/query/column.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sql/query/column.go b/sql/query/column.go
index d1133a9..c0970dd 100644
--- a/sql/query/column.go
+++ b/sql/query/column.go
@@ -174,6 +174,11 @@ func (col *column) IsName(name string) bool {
 	return col.name == name
 }
 
+// IsAsterisk returns true if the column is an asterisk.
+func (col *column) IsAsterisk() bool {
+	return col.name == Asterisk
+}
+
 // SetValue sets a value.
 func (col *column) SetValue(v any) error {
 	if col.Literal == nil {
-- 
2.43.0


From e9536ff7cf45d0d1038af6335d2aaeec012c8ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:37 +0000
Subject: [PATCH 58/74] fix: the string '?' is not a place holder

---
 sql/query/literal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/query/literal.go b/sql/query/literal.go
index e9f9628..ca08f3e 100644
--- a/sql/query/literal.go
+++ b/sql/query/literal.go
@@ -88,7 +88,7 @@ func (lit *Literal) IsAsterisk() bool {
 
 // IsPlaceHolder returns true whether the literal is a place holder.
 func (lit *Literal) IsPlaceHolder() bool {
-	return lit.Equal("?")
+	return lit.ValueType() != StringLiteral && lit.Equal("?")
 }
 
 // SetValue sets a value.
-- 
2.43.0


From 68ccc12e130aba0825ab6b69b74df2b60a752bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:21 +0000
Subject: [PATCH 59/74] fix: OR inside AND is rendered in parentheses

---
 sql/query/expr_and.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sql/query/expr_and.go b/sql/query/expr_and.go
index feca923..712411a 100644
--- a/sql/query/expr_and.go
+++ b/sql/query/expr_and.go
@@ -37,5 +37,11 @@ func (expr *AndExpr) Right() Expr {
 
 // String returns the index string representation.
 func (expr *AndExpr) String() string {
-	return expr.left.String() + " AND " + expr.right.String()
+	operand := func(e Expr) string {
+		if _, ok := e.(*OrExpr); ok { // OR binds weaker than AND
+			return "(" + e.String() + ")"
+		}
+		return e.String()
+	}
+	return operand(expr.left) + " AND " + operand(expr.right)
 }
-- 
2.43.0


From 3e49d6d1a8be33bed01aa68764edd187aaed60b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:52 +0000
Subject: [PATCH 60/74] fix: a connection is closed once, also by concurrent
 callers

---
 sql/net/conn_impl.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sql/net/conn_impl.go b/sql/net/conn_impl.go
index 40118b6..fc70f87 100644
--- a/sql/net/conn_impl.go
+++ b/sql/net/conn_impl.go
@@ -99,6 +99,8 @@ func WithConnUser(user string) func(*conn) {
 
 // Close closes the connection.
 func (conn *conn) Close() error {
+	conn.Lock()
+	defer conn.Unlock()
 	if conn.isClosed {
 		return nil
 	}
-- 
2.43.0


From 9138a7a367d36ab387f09fd1b52b1c9c001d7b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:08 +0000
Subject: [PATCH 61/74] fix: the span context of a connection is guarded by its
 lock

---
 sql/net/conn_impl.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sql/net/conn_impl.go b/sql/net/conn_impl.go
index fc70f87..03533e1 100644
--- a/sql/net/conn_impl.go
+++ b/sql/net/conn_impl.go
@@ -185,25 +185,29 @@ func (conn *conn) Context() context.Context {
 
 // SetSpanContext sets the tracer span context of the connection.
 func (conn *conn) SetSpanContext(ctx tracer.Context) {
+	conn.Lock()
+	defer conn.Unlock()
 	conn.tracerContext = ctx
 }
 
 // SpanContext returns the tracer span context of the connection.
 func (conn *conn) SpanContext() tracer.Context {
+	conn.Lock()
+	defer conn.Unlock()
 	return conn.tracerContext
 }
 
 // Span returns the current top tracer span on the tracer span stack.
 func (conn *conn) Span() tracer.Span {
-	return conn.tracerContext.Span()
+	return conn.SpanContext().Span()
 }
 
 // StartSpan starts a new child tracer span and pushes it onto the tracer span stack.
 func (conn *conn) StartSpan(name string) bool {
-	return conn.tracerContext.StartSpan(name)
+	return conn.SpanContext().StartSpan(name)
 }
 
 // FinishSpan ends the current top tracer span and pops it from the tracer span stack.
 func (conn *conn) FinishSpan() bool {
-	return conn.tracerContext.FinishSpan()
+	return conn.SpanContext().FinishSpan()
 }
-- 
2.43.0


From 749b1e9c99ee659aae3e8c16bc8e8fd31d61d480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:24 +0000
Subject: [PATCH 62/74] fix: a connection without a tracer has a null span
 context

---
 sql/net/conn_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/net/conn_impl.go b/sql/net/conn_impl.go
index 03533e1..4d9e9fe 100644
--- a/sql/net/conn_impl.go
+++ b/sql/net/conn_impl.go
@@ -54,7 +54,7 @@ func NewConnWith(netConn net.Conn, opts ...ConnOption) Conn {
 		ts:            time.Now(),
 		uuid:          uuid.New(),
 		id:            0,
-		tracerContext: nil,
+		tracerContext: &tracer.NullSpanContext,
 	}
 	for _, opt := range opts {
 		opt(conn)
-- 
2.43.0


From ddb5ac17c38408213188886757f7660e00a2a3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:42 +0000
Subject: [PATCH 63/74] fix: a connection does not share its schema list with
 the caller

---
 sql/net/conn_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql/net/conn_impl.go b/sql/net/conn_impl.go
index 4d9e9fe..fa0dad5 100644
--- a/sql/net/conn_impl.go
+++ b/sql/net/conn_impl.go
@@ -72,7 +72,7 @@ func WithConnDatabase(name string) func(*conn) {
 // WithConnSchemas sets schema names.
 func WithConnSchemas(schemas ...string) func(*conn) {
 	return func(conn *conn) {
-		conn.schemas = schemas
+		conn.schemas = slices.Clone(schemas)
 	}
 }
 
-- 
2.43.0


From 4811aa5aa6d6c8a332c7cf8d13a140dcde9f5a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:23:58 +0000
Subject: [PATCH 64/74] fix: removing a connection leaves others with the same
 ID alone

---
 sql/net/conn_manager_impl.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sql/net/conn_manager_impl.go b/sql/net/conn_manager_impl.go
index 6485602..b0b4997 100644
--- a/sql/net/conn_manager_impl.go
+++ b/sql/net/conn_manager_impl.go
@@ -109,7 +109,10 @@ func (cm *mgr) LookupConnByUUID(uuid uuid.UUID) (Conn, bool) {
 func (cm *mgr) RemoveConn(conn Conn) error {
 	cm.mutex.Lock()
 	defer cm.mutex.Unlock()
-	delete(cm.uidMap, conn.ID())
+	// Another connection may be registered with the same connection ID.
+	if c, ok := cm.uidMap[conn.ID()]; ok && c.UUID() == conn.UUID() {
+		delete(cm.uidMap, conn.ID())
+	}
 	delete(cm.m, conn.UUID())
 	return nil
 }
-- 
2.43.0


From de4a9c4b87ba59b730c200a0ba05ab1fcd361491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:24:17 +0000
Subject: [PATCH 65/74] fix: an updated connection is registered under its own
 IDs

---
 sql/net/conn_manager_impl.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sql/net/conn_manager_impl.go b/sql/net/conn_manager_impl.go
index b0b4997..85271e7 100644
--- a/sql/net/conn_manager_impl.go
+++ b/sql/net/conn_manager_impl.go
@@ -72,8 +72,18 @@ func (cm *mgr) UpdateConn(from Conn, to Conn) error {
 		return newErrConnNotExists(fmt.Sprintf("%d", uid))
 	}
 
-	cm.m[uuid] = to
-	cm.uidMap[uid] = to
+	// The new connection must not take the place of a third one.
+	if c, ok := cm.m[to.UUID()]; ok && c.UUID() != uuid {
+		return newErrConnExist(to.UUID().String())
+	}
+	if c, ok := cm.uidMap[to.ID()]; ok && c.UUID() != uuid {
+		return newErrConnExist(fmt.Sprintf("%d", to.ID()))
+	}
+
+	delete(cm.m, uuid)
+	delete(cm.uidMap, uid)
+	cm.m[to.UUID()] = to
+	cm.uidMap[to.ID()] = to
 
 	return nil
 }
-- 
2.43.0


From 2009c805cd528123731b9bc2c566a8e1a22061fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:56 +0000
Subject: [PATCH 66/74] fix: bind values other than numbers are escaped string
 literals

---
 sql/stmt/bind_param_impl.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/sql/stmt/bind_param_impl.go b/sql/stmt/bind_param_impl.go
index de618c4..13b2670 100644
--- a/sql/stmt/bind_param_impl.go
+++ b/sql/stmt/bind_param_impl.go
@@ -19,6 +19,7 @@ import (
 	"time"
 
 	"github.com/cybergarage/go-safecast/safecast"
+	"github.com/cybergarage/go-sqlparser/sql/util/strings"
 )
 
 type bindParam struct {
@@ -33,8 +34,8 @@ func NewBindParam(v any) BindParam {
 // String returns the string representation of the bind parameter.
 func (p *bindParam) String() (string, error) {
 	switch v := p.v.(type) {
-	case string:
-		return "'" + v + "'", nil
+	case nil:
+		return "NULL", nil
 	case time.Time:
 		if v.Nanosecond() == 0 {
 			return "'" + v.Format("2006-01-02 15:04:05") + "'", nil
@@ -47,5 +48,12 @@ func (p *bindParam) String() (string, error) {
 	}
 
 	var to string
-	return to, safecast.ToString(p.v, &to)
+	if err := safecast.ToString(p.v, &to); err != nil {
+		return "", err
+	}
+	switch p.v.(type) {
+	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, bool:
+		return to, nil
+	}
+	return strings.EscapeString(to), nil
 }
-- 
2.43.0


From 5765969a171e46d7b7923ba13d8d0431aa7adef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:14 +0000
Subject: [PATCH 67/74] fix: placeholders are bound in one pass, outside of
 literals, names and comments

---
 sql/stmt/bind_impl.go | 84 +++++++++++++++++++++++++++++++++----------
 1 file changed, 66 insertions(+), 18 deletions(-)

diff --git a/sql/stmt/bind_impl.go b/sql/stmt/bind_impl.go
index 553f72c..0ad532f 100644
--- a/sql/stmt/bind_impl.go
+++ b/sql/stmt/bind_impl.go
@@ -16,14 +16,15 @@ package stmt
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 
 	"github.com/cybergarage/go-sqlparser/sql"
 )
 
 const (
-	stdPlaceholder      = "?"
-	pgPlaceholderFormat = "$%d"
+	stdPlaceholder = '?'
+	pgPlaceholder  = '$'
 )
 
 type bindStmt struct {
@@ -62,22 +63,9 @@ func NewBindStatement(opts ...BindStatementOption) BindStatement {
 
 // Statement returns the statement with the bound parameters.
 func (stmt *bindStmt) Statements() ([]Statement, error) {
-	q := stmt.query
-	for n, param := range stmt.params {
-		s, err := param.String()
-		if err != nil {
-			return nil, err
-		}
-		if 0 < strings.Index(q, stdPlaceholder) {
-			q = strings.Replace(q, stdPlaceholder, s, 1)
-			continue
-		}
-		placeHolder := fmt.Sprintf(pgPlaceholderFormat, n+1)
-		if 0 < strings.Index(q, placeHolder) {
-			q = strings.Replace(q, placeHolder, s, 1)
-			continue
-		}
-		return nil, fmt.Errorf("placeholder (%s/%s) %w: %s", stdPlaceholder, placeHolder, ErrNotFound, s)
+	q, err := stmt.bindQuery()
+	if err != nil {
+		return nil, err
 	}
 	stmts, err := sql.NewParser().ParseString(q)
 	if err != nil {
@@ -85,3 +73,63 @@ func (stmt *bindStmt) Statements() ([]Statement, error) {
 	}
 	return stmts, nil
 }
+
+// bindQuery returns the query whose placeholders are replaced with the parameters in a single pass.
+func (stmt *bindStmt) bindQuery() (string, error) {
+	query := stmt.query
+	bound := make([]bool, len(stmt.params))
+	next := 0
+	var q strings.Builder
+	for i := 0; i < len(query); {
+		end := i + opaqueLen(query[i:])
+		n := -1
+		if end == i {
+			end = i + 1
+			if query[i] == stdPlaceholder || query[i] == pgPlaceholder {
+				for end < len(query) && '0' <= query[end] && query[end] <= '9' {
+					end++
+				}
+				if i+1 < end { // numbered
+					if v, err := strconv.Atoi(query[i+1 : end]); err == nil {
+						n = v - 1
+					}
+				} else if query[i] == stdPlaceholder {
+					n = next
+					next++
+				}
+			}
+		}
+		if 0 <= n && n < len(stmt.params) {
+			s, err := stmt.params[n].String()
+			if err != nil {
+				return "", err
+			}
+			q.WriteString(s)
+			bound[n] = true
+		} else {
+			q.WriteString(query[i:end])
+		}
+		i = end
+	}
+	for n, ok := range bound {
+		if !ok {
+			return "", fmt.Errorf("placeholder for parameter %d %w: %s", n+1, ErrNotFound, query)
+		}
+	}
+	return q.String(), nil
+}
+
+// opaqueLen returns the length of the string literal, quoted name or comment at the start of the query, otherwise 0.
+func opaqueLen(q string) int {
+	for _, quote := range [][2]string{{"'", "'"}, {"\"", "\""}, {"`", "`"}, {"[", "]"}, {"--", "\n"}, {"/*", "*/"}} {
+		body, ok := strings.CutPrefix(q, quote[0])
+		if !ok {
+			continue
+		}
+		if n := strings.Index(body, quote[1]); 0 <= n {
+			return len(quote[0]) + n + len(quote[1])
+		}
+		return len(q)
+	}
+	return 0
+}
-- 
2.43.0


From c750536328b3c75eede517f9968b73b0ab425b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:57 +0000
Subject: [PATCH 68/74] fix: the columns of a schema are listed with the names
 of that schema

NewSchemaColumnsResultSetFromSchemas reported every column as one of the
table information_schema.COLUMNS.
---
 sql/system/schema_columns_resutset_from.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sql/system/schema_columns_resutset_from.go b/sql/system/schema_columns_resutset_from.go
index 1d33666..c7dcea4 100644
--- a/sql/system/schema_columns_resutset_from.go
+++ b/sql/system/schema_columns_resutset_from.go
@@ -80,9 +80,9 @@ func NewSchemaColumnsResultSetFromSchemas(schemas []query.Schema) (ResultSet, er
 				case SchemaColumnsCatalog:
 					obj[SchemaColumnsCatalog] = DefaultSchemaColumnsCatalog
 				case SchemaColumnsSchema:
-					obj[SchemaColumnsSchema] = rsSchema.DatabaseName()
+					obj[SchemaColumnsSchema] = schema.SchemaName()
 				case SchemaColumnsTableName:
-					obj[SchemaColumnsTableName] = rsSchema.TableName()
+					obj[SchemaColumnsTableName] = schema.TableName()
 				case SchemaColumnsColumnName:
 					obj[SchemaColumnsColumnName] = column.Name()
 				case SchemaColumnsDataType:
-- 
2.43.0


From aef03df72306f95191e353e733345e0024ad6a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:18 +0000
Subject: [PATCH 69/74] fix: schema columns queries hold the database and table
 names as given

The names were written into a query text without escaping, which failed to
parse or meant something else for names with a quote. A query without a
database name was malformed, and one for several tables could not be parsed.
---
 sql/system/schema_columns_resutset.go  | 23 +----------
 sql/system/schema_columns_stmt_impl.go | 54 +++++++++++++++-----------
 2 files changed, 32 insertions(+), 45 deletions(-)

diff --git a/sql/system/schema_columns_resutset.go b/sql/system/schema_columns_resutset.go
index da4a857..b2536a2 100644
--- a/sql/system/schema_columns_resutset.go
+++ b/sql/system/schema_columns_resutset.go
@@ -31,26 +31,5 @@ type SchemaColumnsResultSet interface {
 
 // NewSchemaColumnsQueryFromTableNames returns a new schema columns query with table names.
 func NewSchemaColumnsQueryFromTableNames(tableNames []string) (sql.Select, error) {
-	query := SchemaColumnsQuery
-	if 0 < len(tableNames) {
-		query += " WHERE "
-		for n, tableName := range tableNames {
-			if 0 < n {
-				query += " OR "
-			}
-			query += "TABLE_NAME = '" + tableName + "'"
-		}
-	}
-	stmt, err := sql.NewParser().ParseString(query)
-	if err != nil {
-		return nil, err
-	}
-	if len(stmt) != 1 {
-		return nil, newErrInvalidQuery(query)
-	}
-	selectStmt, ok := stmt[0].(sql.Select)
-	if !ok {
-		return nil, newErrInvalidQuery(query)
-	}
-	return selectStmt, nil
+	return newSchemaColumnsSelect("", tableNames), nil
 }
diff --git a/sql/system/schema_columns_stmt_impl.go b/sql/system/schema_columns_stmt_impl.go
index 5df1bed..6b347e9 100644
--- a/sql/system/schema_columns_stmt_impl.go
+++ b/sql/system/schema_columns_stmt_impl.go
@@ -74,34 +74,42 @@ func NewSchemaColumnsStatement(opts ...SchemaColumnsStatementOption) (SchemaColu
 }
 
 func (stmt *schemaColumnsStatement) generateSelectStatement() error {
-	query := SchemaColumnsQuery + " WHERE "
-	if 0 < len(stmt.dbName) {
-		query += SchemaColumnsSchema + " = '" + stmt.dbName + "'"
+	stmt.stmt = newSchemaColumnsSelect(stmt.dbName, stmt.tblNames)
+	return nil
+}
+
+// newSchemaColumnsSelect returns a query for the columns of the tables, any database or table if no name is given.
+func newSchemaColumnsSelect(dbName string, tblNames []string) sql.Select {
+	eq := func(column string, name string) query.Expr {
+		return query.NewEQWith(
+			query.NewColumnWithName(column),
+			query.NewLiteralWith(name, query.WithLiteralType(query.StringLiteral)),
+		)
 	}
-	switch {
-	case len(stmt.tblNames) == 1:
-		query += " AND " + SchemaColumnsTableName + " = '" + stmt.tblNames[0] + "'"
-	case 1 < len(stmt.tblNames):
-		escapedTableNames := make([]string, len(stmt.tblNames))
-		for n, tblName := range stmt.tblNames {
-			escapedTableNames[n] = "'" + tblName + "'"
+	var expr query.Expr
+	for _, tblName := range tblNames {
+		e := eq(SchemaColumnsTableName, tblName)
+		if expr != nil {
+			e = query.NewOrExpr(expr, e)
 		}
-		query += " AND " + SchemaColumnsTableName + " IN (" + strings.Join(escapedTableNames, ",") + ")"
-	}
-	parser := sql.NewParser()
-	parsedStmts, err := parser.ParseString(query)
-	if err != nil {
-		return err
+		expr = e
 	}
-	if len(parsedStmts) != 1 {
-		return newErrInvalidQuery(query)
+	if 0 < len(dbName) {
+		e := eq(SchemaColumnsSchema, dbName)
+		if expr != nil {
+			e = query.NewAndExpr(e, expr)
+		}
+		expr = e
 	}
-	selectStmt, ok := parsedStmts[0].(sql.Select)
-	if !ok {
-		return newErrInvalidQuery(query)
+	where := query.NewCondition()
+	if expr != nil {
+		where = query.NewConditionWith(expr)
 	}
-	stmt.stmt = selectStmt
-	return nil
+	return query.NewSelectWith(
+		query.NewSelectorsWith(query.NewColumnWithName("*")),
+		query.NewTablesWith(query.NewTableWith(InformationSchemaColumns, query.WithTableSchema(InformationSchema))),
+		where,
+	)
 }
 
 func (stmt *schemaColumnsStatement) traverseSelectStatement() error {
-- 
2.43.0


From 9aea81ebe362eedb666ea346b0f25fa73e2196e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:40 +0000
Subject: [PATCH 70/74] fix: schema columns statements are read with several
 tables

A statement with the table names joined by OR was refused, although it is the
statement generated for several tables.
---
 sql/system/schema_columns_stmt_impl.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/sql/system/schema_columns_stmt_impl.go b/sql/system/schema_columns_stmt_impl.go
index 6b347e9..0a70ec0 100644
--- a/sql/system/schema_columns_stmt_impl.go
+++ b/sql/system/schema_columns_stmt_impl.go
@@ -113,14 +113,25 @@ func newSchemaColumnsSelect(dbName string, tblNames []string) sql.Select {
 }
 
 func (stmt *schemaColumnsStatement) traverseSelectStatement() error {
-	var traverseExpr func(expr query.Expr) error
-	traverseExpr = func(expr query.Expr) error {
+	var traverseExpr func(expr query.Expr, or bool) error
+	traverseExpr = func(expr query.Expr, or bool) error {
 		switch e := expr.(type) {
+		case *query.OrExpr:
+			if err := traverseExpr(e.Left(), true); err != nil {
+				return err
+			}
+			if err := traverseExpr(e.Right(), true); err != nil {
+				return err
+			}
+			return nil
 		case *query.AndExpr:
-			if err := traverseExpr(e.Left()); err != nil {
+			if or {
+				return newErrInvalidQuery(stmt.stmt.String())
+			}
+			if err := traverseExpr(e.Left(), false); err != nil {
 				return err
 			}
-			if err := traverseExpr(e.Right()); err != nil {
+			if err := traverseExpr(e.Right(), false); err != nil {
 				return err
 			}
 			return nil
@@ -141,6 +152,10 @@ func (stmt *schemaColumnsStatement) traverseSelectStatement() error {
 				stmt.dbName = value
 			case strings.EqualFold(name, SchemaColumnsTableName):
 				stmt.tblNames = append(stmt.tblNames, value)
+				return nil
+			}
+			if or { // only table names can be listed
+				return newErrInvalidQuery(stmt.stmt.String())
 			}
 			return nil
 		}
@@ -148,7 +163,7 @@ func (stmt *schemaColumnsStatement) traverseSelectStatement() error {
 	}
 
 	stmt.tblNames = []string{}
-	err := traverseExpr(stmt.stmt.Where().Expr())
+	err := traverseExpr(stmt.stmt.Where().Expr(), false)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From deba30cb6919d8c2c3ced2bb9df12bb16c88da31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:53 +0000
Subject: [PATCH 71/74] fix: floats that are not numbers are refused as bind
 parameters

NaN and the infinities were written as NaN, +Inf and -Inf, which are no literals
and are parsed as names.
---
 sql/stmt/bind_param_impl.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sql/stmt/bind_param_impl.go b/sql/stmt/bind_param_impl.go
index 13b2670..fee965b 100644
--- a/sql/stmt/bind_param_impl.go
+++ b/sql/stmt/bind_param_impl.go
@@ -15,6 +15,8 @@
 package stmt
 
 import (
+	"fmt"
+	"math"
 	"strconv"
 	"time"
 
@@ -42,9 +44,9 @@ func (p *bindParam) String() (string, error) {
 		}
 		return "'" + v.Format("2006-01-02 15:04:05.000000") + "'", nil
 	case float64:
-		return strconv.FormatFloat(v, 'g', -1, 64), nil
+		return floatLiteral(v, 64)
 	case float32:
-		return strconv.FormatFloat(float64(v), 'g', -1, 32), nil
+		return floatLiteral(float64(v), 32)
 	}
 
 	var to string
@@ -57,3 +59,11 @@ func (p *bindParam) String() (string, error) {
 	}
 	return strings.EscapeString(to), nil
 }
+
+// floatLiteral returns the shortest literal that denotes the specified float.
+func floatLiteral(v float64, bitSize int) (string, error) {
+	if math.IsNaN(v) || math.IsInf(v, 0) {
+		return "", fmt.Errorf("float %w: %v", ErrInvalid, v)
+	}
+	return strconv.FormatFloat(v, 'g', -1, bitSize), nil
+}
-- 
2.43.0


From ed82a98c11b8f86d29f1a48e83bca8fb4127e8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:20 +0000
Subject: [PATCH 72/74] fix: the null literal is rendered as NULL

A literal without a value was rendered as <nil>, which is no SQL.
---
 sql/query/literal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sql/query/literal.go b/sql/query/literal.go
index ca08f3e..3097d95 100644
--- a/sql/query/literal.go
+++ b/sql/query/literal.go
@@ -124,6 +124,9 @@ func (lit *Literal) ValueString() string {
 	if lit == nil {
 		return ""
 	}
+	if lit.v == nil {
+		return "NULL"
+	}
 	switch lit.t {
 	case StringLiteral:
 		return strings.EscapeString(fmt.Sprintf("%v", lit.v))
-- 
2.43.0


From 49316f031fa13ae240b5a387a0fa54a61ea6b772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:55 +0000
Subject: [PATCH 73/74] fix: groups are ordered even if one of them is NULL

NULL cannot be compared by safecast.Compare and was taken as equal to every
group value, so that the groups on either side of it stayed unordered. NULL is
now less than any other value, as in SQLite.
---
 sql/fn/aggr_impl.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/sql/fn/aggr_impl.go b/sql/fn/aggr_impl.go
index 867a244..6543aa7 100644
--- a/sql/fn/aggr_impl.go
+++ b/sql/fn/aggr_impl.go
@@ -335,6 +335,19 @@ func (aggr *aggrImpl) Aggregate(v any) error {
 	}
 }
 
+// compareGroupKeys compares two group values. NULL is less than any other value.
+func compareGroupKeys(a any, b any) (int, error) {
+	switch {
+	case a == nil && b == nil:
+		return 0, nil
+	case a == nil:
+		return -1, nil
+	case b == nil:
+		return 1, nil
+	}
+	return safecast.Compare(a, b)
+}
+
 // Finalize finalizes the aggregation and returns the result.
 func (aggr *aggrImpl) Finalize(opts ...any) (ResultSet, error) {
 	orderBy := OrderByNone
@@ -360,7 +373,7 @@ func (aggr *aggrImpl) Finalize(opts ...any) (ResultSet, error) {
 				return false
 			default:
 				for k := range groupSetKeyiSlice {
-					cmp, err := safecast.Compare(groupSetKeyiSlice[k], groupSetKeyjSlice[k])
+					cmp, err := compareGroupKeys(groupSetKeyiSlice[k], groupSetKeyjSlice[k])
 					if err != nil {
 						return false // If comparison fails, do not change the order
 					}
-- 
2.43.0


From 0467d0c35422455b945a26bc186a9f960f915da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:20 +0000
Subject: [PATCH 74/74] fix: a row refused by one aggregator of a set is
 aggregated by none

A set handed the row to its aggregators one after the other. If a later one
refused it, because its column was missing or no number, the earlier ones had
already aggregated the row the set reported as refused.
---
 sql/fn/aggr_impl.go | 101 ++++++++++++++++++++++++++++++--------------
 sql/fn/aggr_set.go  |  10 +++++
 2 files changed, 79 insertions(+), 32 deletions(-)

diff --git a/sql/fn/aggr_impl.go b/sql/fn/aggr_impl.go
index 6543aa7..3867ba3 100644
--- a/sql/fn/aggr_impl.go
+++ b/sql/fn/aggr_impl.go
@@ -214,32 +214,51 @@ func (aggr *aggrImpl) Reset(opts ...any) error {
 	return nil
 }
 
-// AggregateRow aggregates a row of data using the aggregator.
-// The row is expected to be an array where the first element is the group value (if grouping is enabled),.
-func (aggr *aggrImpl) AggregateRow(row []any) error {
-	if len(aggr.columns) != len(row) {
-		return fmt.Errorf("%w column count (%d != %d)", ErrInvalid, len(aggr.columns), len(row))
-	}
-
-	toFloat64 := func(v any) (float64, error) {
-		switch v := v.(type) {
-		case nil:
-			return 0, nil
-		default:
-			var fv float64
-			if err := safecast.ToFloat64(v, &fv); err != nil {
-				return 0, fmt.Errorf("%w value %v : %w", ErrInvalid, v, err)
-			}
-			return fv, nil
+// aggrValue returns the number to aggregate for the value.
+func aggrValue(v any) (float64, error) {
+	switch v := v.(type) {
+	case nil:
+		return 0, nil
+	default:
+		var fv float64
+		if err := safecast.ToFloat64(v, &fv); err != nil {
+			return 0, fmt.Errorf("%w value %v : %w", ErrInvalid, v, err)
 		}
+		return fv, nil
 	}
+}
 
-	groupBys, isGrouping := aggr.GroupBys()
+// checkValues returns an error if the row values cannot be aggregated.
+func (aggr *aggrImpl) checkValues(row []any) error {
+	if len(aggr.columns) != len(row) {
+		return fmt.Errorf("%w column count (%d != %d)", ErrInvalid, len(aggr.columns), len(row))
+	}
+	groupBys, _ := aggr.GroupBys()
 	for n, rv := range row[len(groupBys):] {
-		if _, err := toFloat64(rv); err != nil {
+		if _, err := aggrValue(rv); err != nil {
 			return fmt.Errorf("[%d] %w row : %w", n, ErrInvalid, err)
 		}
 	}
+	return nil
+}
+
+// checkRow returns an error if the map or array cannot be aggregated.
+func (aggr *aggrImpl) checkRow(v any) error {
+	row, err := aggr.rowFrom(v)
+	if err != nil {
+		return err
+	}
+	return aggr.checkValues(row)
+}
+
+// AggregateRow aggregates a row of data using the aggregator.
+// The row is expected to be an array where the first element is the group value (if grouping is enabled),.
+func (aggr *aggrImpl) AggregateRow(row []any) error {
+	if err := aggr.checkValues(row); err != nil {
+		return err
+	}
+
+	groupBys, isGrouping := aggr.GroupBys()
 	if isGrouping {
 		groupKeysCnt := len(groupBys)
 		groupKeys := slices.Clone(row[:groupKeysCnt])
@@ -261,7 +280,7 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 			}
 		}
 		for n, rv := range row[groupKeysCnt:] {
-			fv, err := toFloat64(rv)
+			fv, err := aggrValue(rv)
 			if err != nil {
 				return fmt.Errorf("[%d] %w row : %w", n+1, ErrInvalid, err)
 			}
@@ -274,7 +293,7 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 		aggr.groupCounts[groupSetKey]++
 	} else {
 		for n, rv := range row {
-			fv, err := toFloat64(rv)
+			fv, err := aggrValue(rv)
 			if err != nil {
 				return fmt.Errorf("[%d] %w row : %w", n, ErrInvalid, err)
 			}
@@ -292,11 +311,20 @@ func (aggr *aggrImpl) AggregateRow(row []any) error {
 
 // AggregateMap aggregates a map of data using the aggregator.
 func (aggr *aggrImpl) AggregateMap(m map[string]any) error {
+	row, err := aggr.rowFromMap(m)
+	if err != nil {
+		return err
+	}
+	return aggr.AggregateRow(row)
+}
+
+// rowFromMap returns the row of the columns to aggregate in the map.
+func (aggr *aggrImpl) rowFromMap(m map[string]any) ([]any, error) {
 	row := make([]any, 0, len(aggr.columns))
 	for _, groupBy := range aggr.groupBys {
 		v, ok := m[groupBy]
 		if !ok {
-			return fmt.Errorf("column (%s) %w in map", groupBy, ErrNotFound)
+			return nil, fmt.Errorf("column (%s) %w in map", groupBy, ErrNotFound)
 		}
 		row = append(row, v)
 	}
@@ -311,30 +339,39 @@ func (aggr *aggrImpl) AggregateMap(m map[string]any) error {
 			v, ok = m[arg]
 		}
 		if !ok {
-			return fmt.Errorf("column (%s) %w in map", arg, ErrNotFound)
+			return nil, fmt.Errorf("column (%s) %w in map", arg, ErrNotFound)
 		}
 		row = append(row, v)
 	}
-	return aggr.AggregateRow(row)
+	return row, nil
 }
 
-// Aggregate aggregates a map or an array. The map represents a row of data, and the array is a
-// list of rows. If grouping is enabled, the array row must have a group value as the first element.
-func (aggr *aggrImpl) Aggregate(v any) error {
+// rowFrom returns the row of the map or the array.
+func (aggr *aggrImpl) rowFrom(v any) ([]any, error) {
 	switch v := v.(type) {
 	case []any:
-		return aggr.AggregateRow(v)
+		return v, nil
 	case map[string]any:
-		return aggr.AggregateMap(v)
+		return aggr.rowFromMap(v)
 	case Row:
-		return aggr.AggregateRow(v)
+		return v, nil
 	case Map:
-		return aggr.AggregateMap(v)
+		return aggr.rowFromMap(v)
 	default:
-		return fmt.Errorf("%w type %T is not supported for aggregation", ErrInvalid, v)
+		return nil, fmt.Errorf("%w type %T is not supported for aggregation", ErrInvalid, v)
 	}
 }
 
+// Aggregate aggregates a map or an array. The map represents a row of data, and the array is a
+// list of rows. If grouping is enabled, the array row must have a group value as the first element.
+func (aggr *aggrImpl) Aggregate(v any) error {
+	row, err := aggr.rowFrom(v)
+	if err != nil {
+		return err
+	}
+	return aggr.AggregateRow(row)
+}
+
 // compareGroupKeys compares two group values. NULL is less than any other value.
 func compareGroupKeys(a any, b any) (int, error) {
 	switch {
diff --git a/sql/fn/aggr_set.go b/sql/fn/aggr_set.go
index 9f728b3..040a6ba 100644
--- a/sql/fn/aggr_set.go
+++ b/sql/fn/aggr_set.go
@@ -53,7 +53,17 @@ func (aggrSet *AggregatorSet) Reset(opts ...any) error {
 }
 
 // Aggregate aggregates a row of data using all aggregators in the set.
+// A row that one of the aggregators refuses is aggregated by none of them.
 func (aggrSet *AggregatorSet) Aggregate(v any) error {
+	for _, aggr := range *aggrSet {
+		checker, ok := aggr.(interface{ checkRow(v any) error })
+		if !ok {
+			continue
+		}
+		if err := checker.checkRow(v); err != nil {
+			return err
+		}
+	}
 	for _, aggr := range *aggrSet {
 		if err := aggr.Aggregate(v); err != nil {
 			return err
-- 
2.43.0

