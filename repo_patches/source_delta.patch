From e0bfe10af27fb8e9b807d317f74cdc13c15ad5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 01/33] fix: emit migration statements in schema order, not map
 order

---
 diff/diff.go | 71 ++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 55 insertions(+), 16 deletions(-)

diff --git a/diff/diff.go b/diff/diff.go
index b98f304..a509dec 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -44,6 +44,45 @@ func newDiffCtx(from, to model.Stmts) *diffCtx {
 	}
 }
 
+// inOrder returns the members of set in the order they appear in ids. Iterating
+// over the set itself yields a different order every time
+func inOrder(set mapset.Set, ids []string) []string {
+	var l []string
+	seen := make(map[string]struct{})
+	for _, id := range ids {
+		if _, ok := seen[id]; ok || !set.Contains(id) {
+			continue
+		}
+		seen[id] = struct{}{}
+		l = append(l, id)
+	}
+	return l
+}
+
+func stmtIDs(stmts model.Stmts) []string {
+	var ids []string
+	for _, stmt := range stmts {
+		ids = append(ids, stmt.ID())
+	}
+	return ids
+}
+
+func columnIDs(table model.Table) []string {
+	var ids []string
+	for col := range table.Columns() {
+		ids = append(ids, col.ID())
+	}
+	return ids
+}
+
+func indexIDs(table model.Table) []string {
+	var ids []string
+	for idx := range table.Indexes() {
+		ids = append(ids, idx.ID())
+	}
+	return ids
+}
+
 // Statements compares two model.Stmts and generates a series
 // of statements to migrate from the old one to the new one,
 // writing the result to `dst`
@@ -145,12 +184,12 @@ func Sources(dst io.Writer, from, to schemalex.SchemaSource, options ...Option)
 func dropTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 	var buf bytes.Buffer
 	ids := ctx.fromSet.Difference(ctx.toSet)
-	for i, id := range ids.ToSlice() {
+	for i, id := range inOrder(ids, stmtIDs(ctx.from)) {
 		if i > 0 {
 			buf.WriteByte('\n')
 		}
 
-		stmt, ok := ctx.from.Lookup(id.(string))
+		stmt, ok := ctx.from.Lookup(id)
 		if !ok {
 			return 0, errors.Errorf(`failed to lookup table %s`, id)
 		}
@@ -171,9 +210,9 @@ func createTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 	var buf bytes.Buffer
 
 	ids := ctx.toSet.Difference(ctx.fromSet)
-	for _, id := range ids.ToSlice() {
+	for _, id := range inOrder(ids, stmtIDs(ctx.to)) {
 		// Lookup the corresponding statement, and add its SQL
-		stmt, ok := ctx.to.Lookup(id.(string))
+		stmt, ok := ctx.to.Lookup(id)
 		if !ok {
 			return 0, errors.Errorf(`failed to lookup table %s`, id)
 		}
@@ -241,17 +280,17 @@ func alterTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 
 	ids := ctx.toSet.Intersect(ctx.fromSet)
 	var buf bytes.Buffer
-	for _, id := range ids.ToSlice() {
+	for _, id := range inOrder(ids, stmtIDs(ctx.to)) {
 		var stmt model.Stmt
 		var ok bool
 
-		stmt, ok = ctx.from.Lookup(id.(string))
+		stmt, ok = ctx.from.Lookup(id)
 		if !ok {
 			return 0, errors.Errorf(`table '%s' not found in old schema (alter table)`, id)
 		}
 		beforeStmt := stmt.(model.Table)
 
-		stmt, ok = ctx.to.Lookup(id.(string))
+		stmt, ok = ctx.to.Lookup(id)
 		if !ok {
 			return 0, errors.Errorf(`table '%s' not found in new schema (alter table)`, id)
 		}
@@ -279,14 +318,14 @@ func dropTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 	columnNames := ctx.fromColumns.Difference(ctx.toColumns)
 
 	var buf bytes.Buffer
-	for _, columnName := range columnNames.ToSlice() {
+	for _, columnName := range inOrder(columnNames, columnIDs(ctx.from)) {
 		if buf.Len() > 0 {
 			buf.WriteByte('\n')
 		}
 		buf.WriteString("ALTER TABLE `")
 		buf.WriteString(ctx.from.Name())
 		buf.WriteString("` DROP COLUMN `")
-		col, ok := ctx.from.LookupColumn(columnName.(string))
+		col, ok := ctx.from.LookupColumn(columnName)
 		if !ok {
 			return 0, errors.Errorf(`failed to lookup column %s`, columnName)
 		}
@@ -404,13 +443,13 @@ func writeAddColumn(ctx *alterCtx, buf *bytes.Buffer, columnNames ...string) err
 func alterTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 	var buf bytes.Buffer
 	columnNames := ctx.toColumns.Intersect(ctx.fromColumns)
-	for _, columnName := range columnNames.ToSlice() {
-		beforeColumnStmt, ok := ctx.from.LookupColumn(columnName.(string))
+	for _, columnName := range inOrder(columnNames, columnIDs(ctx.to)) {
+		beforeColumnStmt, ok := ctx.from.LookupColumn(columnName)
 		if !ok {
 			return 0, errors.Errorf(`column %s not found in old schema`, columnName)
 		}
 
-		afterColumnStmt, ok := ctx.to.LookupColumn(columnName.(string))
+		afterColumnStmt, ok := ctx.to.LookupColumn(columnName)
 		if !ok {
 			return 0, errors.Errorf(`column %s not found in new schema`, columnName)
 		}
@@ -442,8 +481,8 @@ func dropTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 	// drop index after drop constraint.
 	// because cannot drop index if needed in a foreign key constraint
 	lazy := make([]model.Index, 0, indexes.Cardinality())
-	for _, index := range indexes.ToSlice() {
-		indexStmt, ok := ctx.from.LookupIndex(index.(string))
+	for _, index := range inOrder(indexes, indexIDs(ctx.from)) {
+		indexStmt, ok := ctx.from.LookupIndex(index)
 		if !ok {
 			return 0, errors.Errorf(`index '%s' not found in old schema (drop index)`, index)
 		}
@@ -505,8 +544,8 @@ func addTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 	// add index before add foreign key.
 	// because cannot add index if create implicitly index by foreign key.
 	lazy := make([]model.Index, 0, indexes.Cardinality())
-	for _, index := range indexes.ToSlice() {
-		indexStmt, ok := ctx.to.LookupIndex(index.(string))
+	for _, index := range inOrder(indexes, indexIDs(ctx.to)) {
+		indexStmt, ok := ctx.to.LookupIndex(index)
 		if !ok {
 			return 0, errors.Errorf(`index '%s' not found in old schema (add index)`, index)
 		}
-- 
2.43.0


From 12b2efc02824da158f33bae4661febb15262d972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:05 +0000
Subject: [PATCH 02/33] fix: do not modify a column while normalizing it

---
 model/table_column.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/model/table_column.go b/model/table_column.go
index eb97f3c..ab06d88 100644
--- a/model/table_column.go
+++ b/model/table_column.go
@@ -300,6 +300,7 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 	var synonym ColumnType
 	var removeQuotes bool
 	var setDefaultNull bool
+	var defaultValue string
 
 	if !t.HasLength() {
 		if l := t.NativeLength(); l != nil {
@@ -336,9 +337,11 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 		case ColumnTypeBool, ColumnTypeBoolean:
 			switch t.Default() {
 			case "TRUE":
-				t.SetDefault("1", false)
+				clone = true
+				defaultValue = "1"
 			case "FALSE":
-				t.SetDefault("0", false)
+				clone = true
+				defaultValue = "0"
 			}
 		}
 	} else {
@@ -369,6 +372,10 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 		col.SetType(synonym)
 	}
 
+	if defaultValue != "" {
+		col.SetDefault(defaultValue, false)
+	}
+
 	col.SetNullState(nullState)
 
 	if removeQuotes {
-- 
2.43.0


From 3fe9a58a544613fe92d312fbe4d4a5d61ad1b9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:36 +0000
Subject: [PATCH 03/33] fix: add columns in schema order, not map order

---
 diff/diff.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/diff/diff.go b/diff/diff.go
index a509dec..4c3e08d 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -347,8 +347,7 @@ func addTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 	// we always start adding with a column that has a either no before
 	// columns, or one that already exists in the database
 	var firstColumn model.TableColumn
-	for _, v := range ctx.toColumns.Difference(ctx.fromColumns).ToSlice() {
-		columnName := v.(string)
+	for _, columnName := range inOrder(ctx.toColumns.Difference(ctx.fromColumns), columnIDs(ctx.to)) {
 		// find the before-column for each.
 		col, ok := ctx.to.LookupColumn(columnName)
 		if !ok {
@@ -376,8 +375,7 @@ func addTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 	var columnNames []string
 	// Find columns that have before columns which existed in both
 	// from and to tables
-	for _, v := range ctx.toColumns.Intersect(ctx.fromColumns).ToSlice() {
-		columnName := v.(string)
+	for _, columnName := range inOrder(ctx.toColumns.Intersect(ctx.fromColumns), columnIDs(ctx.to)) {
 		if nextColumnName, ok := beforeToNext[columnName]; ok {
 			delete(beforeToNext, columnName)
 			delete(nextToBefore, nextColumnName)
@@ -395,8 +393,10 @@ func addTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 	// newly created column. This means we have to make sure to
 	// create them in the order that they are dependent on.
 	columnNames = columnNames[:0]
-	for _, nextCol := range beforeToNext {
-		columnNames = append(columnNames, nextCol)
+	for _, beforeCol := range columnIDs(ctx.to) {
+		if nextCol, ok := beforeToNext[beforeCol]; ok {
+			columnNames = append(columnNames, nextCol)
+		}
 	}
 	// if there's one left, that can be appended
 	if len(columnNames) > 0 {
-- 
2.43.0


From 26f8eb18d4911db36326021bbb5c9ac7c62549db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:41 +0000
Subject: [PATCH 04/33] fix: report failing writes of statement separators in
 lint

---
 lint/lint.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lint/lint.go b/lint/lint.go
index 2e25658..0d6a528 100644
--- a/lint/lint.go
+++ b/lint/lint.go
@@ -35,13 +35,17 @@ func (l *Linter) Run(ctx context.Context, src schemalex.SchemaSource, dst io.Wri
 
 	for i, stmt := range stmts {
 		if i != 0 {
-			dst.Write([]byte{'\n', '\n'})
+			if _, err := dst.Write([]byte{'\n', '\n'}); err != nil {
+				return errors.Wrap(err, `failed to write result`)
+			}
 		}
 
 		if err := format.SQL(dst, stmt, options...); err != nil {
 			return errors.Wrap(err, `failed to format source`)
 		}
-		dst.Write([]byte{';'})
+		if _, err := dst.Write([]byte{';'}); err != nil {
+			return errors.Wrap(err, `failed to write result`)
+		}
 	}
 
 	return nil
-- 
2.43.0


From 964f126a1a48d3e8f7f03ea4b5cad3bca6c7dd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 05/33] fix: do not take a NUL byte for the end of the input

---
 lexer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index 88ca5e5..5766b11 100644
--- a/lexer.go
+++ b/lexer.go
@@ -9,7 +9,8 @@ import (
 	"github.com/schemalex/schemalex/internal/errors"
 )
 
-const eof = rune(0)
+// eof is not a character that can be in the input, unlike NUL
+const eof = rune(-1)
 
 type lrune struct {
 	r rune
-- 
2.43.0


From 9ba833848bb1a15f9af4811009572eff0883d34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 06/33] fix: report failing output in the commands and read
 sources before writing to -o

---
 cmd/schemadiff/schemadiff.go | 34 ++++++++++++++++++++--------------
 cmd/schemalex/schemalex.go   | 34 ++++++++++++++++++++--------------
 cmd/schemalint/schemalint.go | 26 ++++++++++++++------------
 3 files changed, 54 insertions(+), 40 deletions(-)

diff --git a/cmd/schemadiff/schemadiff.go b/cmd/schemadiff/schemadiff.go
index 43c7aa5..714bcbe 100644
--- a/cmd/schemadiff/schemadiff.go
+++ b/cmd/schemadiff/schemadiff.go
@@ -1,9 +1,10 @@
 package main
 
 import (
+	"bytes"
 	"flag"
 	"fmt"
-	"io"
+	"io/ioutil"
 	"log"
 	"os"
 	"runtime"
@@ -77,16 +78,6 @@ Examples:
 		return errors.New("wrong number of arguments")
 	}
 
-	var dst io.Writer = os.Stdout
-	if len(outfile) > 0 {
-		f, err := os.OpenFile(outfile, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
-		if err != nil {
-			return errors.Wrapf(err, `failed to open file %s for writing`, outfile)
-		}
-		dst = f
-		defer f.Close()
-	}
-
 	fromSource, err := schemalex.NewSchemaSource(flag.Arg(0))
 	if err != nil {
 		return errors.Wrap(err, `failed to create schema source for "from"`)
@@ -98,10 +89,25 @@ Examples:
 	}
 
 	p := schemalex.New()
-	return diff.Sources(
-		dst,
+	// Collect the output first: outfile may be one of the sources.
+	var buf bytes.Buffer
+	if err := diff.Sources(
+		&buf,
 		fromSource,
 		toSource,
 		diff.WithTransaction(txn), diff.WithParser(p),
-	)
+	); err != nil {
+		return err
+	}
+
+	if len(outfile) > 0 {
+		if err := ioutil.WriteFile(outfile, buf.Bytes(), 0644); err != nil {
+			return errors.Wrapf(err, `failed to write to file %s`, outfile)
+		}
+		return nil
+	}
+	if _, err := buf.WriteTo(os.Stdout); err != nil {
+		return errors.Wrap(err, `failed to write to stdout`)
+	}
+	return nil
 }
diff --git a/cmd/schemalex/schemalex.go b/cmd/schemalex/schemalex.go
index ecbb0e9..f2a88ca 100644
--- a/cmd/schemalex/schemalex.go
+++ b/cmd/schemalex/schemalex.go
@@ -1,9 +1,10 @@
 package main
 
 import (
+	"bytes"
 	"flag"
 	"fmt"
-	"io"
+	"io/ioutil"
 	"log"
 	"os"
 	"runtime"
@@ -76,16 +77,6 @@ Examples:
 		return errors.New("wrong number of arguments")
 	}
 
-	var dst io.Writer = os.Stdout
-	if len(outfile) > 0 {
-		f, err := os.OpenFile(outfile, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
-		if err != nil {
-			return errors.Wrapf(err, `failed to open file %s for writing`, outfile)
-		}
-		dst = f
-		defer f.Close()
-	}
-
 	fromSource, err := schemalex.NewSchemaSource(flag.Arg(0))
 	if err != nil {
 		return errors.Wrap(err, `failed to create schema source for "from"`)
@@ -97,10 +88,25 @@ Examples:
 	}
 
 	p := schemalex.New()
-	return diff.Sources(
-		dst,
+	// Collect the output first: outfile may be one of the sources.
+	var buf bytes.Buffer
+	if err := diff.Sources(
+		&buf,
 		fromSource,
 		toSource,
 		diff.WithTransaction(txn), diff.WithParser(p),
-	)
+	); err != nil {
+		return err
+	}
+
+	if len(outfile) > 0 {
+		if err := ioutil.WriteFile(outfile, buf.Bytes(), 0644); err != nil {
+			return errors.Wrapf(err, `failed to write to file %s`, outfile)
+		}
+		return nil
+	}
+	if _, err := buf.WriteTo(os.Stdout); err != nil {
+		return errors.Wrap(err, `failed to write to stdout`)
+	}
+	return nil
 }
diff --git a/cmd/schemalint/schemalint.go b/cmd/schemalint/schemalint.go
index e6246d7..b292b9a 100644
--- a/cmd/schemalint/schemalint.go
+++ b/cmd/schemalint/schemalint.go
@@ -1,10 +1,11 @@
 package main
 
 import (
+	"bytes"
 	"context"
 	"flag"
 	"fmt"
-	"io"
+	"io/ioutil"
 	"log"
 	"os"
 	"runtime"
@@ -84,16 +85,6 @@ Examples:
 		return errors.New("wrong number of arguments")
 	}
 
-	var dst io.Writer = os.Stdout
-	if len(outfile) > 0 {
-		f, err := os.OpenFile(outfile, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
-		if err != nil {
-			return errors.Wrapf(err, `failed to open file %s for writing`, outfile)
-		}
-		dst = f
-		defer f.Close()
-	}
-
 	src, err := schemalex.NewSchemaSource(flag.Arg(0))
 	if err != nil {
 		return errors.Wrap(err, `failed to create schema source for "from"`)
@@ -104,9 +95,20 @@ Examples:
 	ctx, cancel := context.WithCancel(context.Background())
 	defer cancel()
 
-	if err := linter.Run(ctx, src, dst, lint.WithIndent(" ", indentNum)); err != nil {
+	// Collect the output first: outfile may be one of the sources.
+	var buf bytes.Buffer
+	if err := linter.Run(ctx, src, &buf, lint.WithIndent(" ", indentNum)); err != nil {
 		return errors.Wrap(err, `failed to lint source`)
 	}
 
+	if len(outfile) > 0 {
+		if err := ioutil.WriteFile(outfile, buf.Bytes(), 0644); err != nil {
+			return errors.Wrapf(err, `failed to write to file %s`, outfile)
+		}
+		return nil
+	}
+	if _, err := buf.WriteTo(os.Stdout); err != nil {
+		return errors.Wrap(err, `failed to write to stdout`)
+	}
 	return nil
 }
-- 
2.43.0


From 25936a41c467ca214c94c37cbfef9887f5cfe8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:51 +0000
Subject: [PATCH 07/33] fix: reject file:// sources on remote hosts with an
 error

---
 source.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source.go b/source.go
index f07bb6b..993d0f3 100644
--- a/source.go
+++ b/source.go
@@ -71,7 +71,7 @@ func NewSchemaSource(uri string) (SchemaSource, error) {
 	case "file", "":
 		// Eh, no remote host, please
 		if u.Host != "" && u.Host != "localhost" {
-			return nil, errors.Wrap(err, `remote hosts for file:// sources are not supported`)
+			return nil, errors.New(`remote hosts for file:// sources are not supported`)
 		}
 		return NewLocalFileSource(u.Path), nil
 	}
-- 
2.43.0


From 811cb980c6e5f35aa66835edfa5056cf27c481be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:17 +0000
Subject: [PATCH 08/33] fix: accept a full-text index followed by another
 definition

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 3ecf5a5..f571f3b 100644
--- a/parser.go
+++ b/parser.go
@@ -1384,7 +1384,7 @@ OUTER:
 func (p *Parser) parseColumnIndexOptions(ctx *parseCtx, index model.Index) error {
 	ctx.skipWhiteSpaces()
 	t := ctx.peek()
-	if t.Type == RPAREN {
+	if t.Type == RPAREN || t.Type == COMMA {
 		return nil
 	}
 	// TODO: support for other index options.
-- 
2.43.0


From 40626414ca40e3fb86cd9fa65d48af2cab4814ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:33 +0000
Subject: [PATCH 09/33] fix: report an error amid the list of tables

---
 source.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source.go b/source.go
index 993d0f3..0234ff3 100644
--- a/source.go
+++ b/source.go
@@ -229,6 +229,9 @@ func (s mysqlSource) WriteSchema(dst io.Writer) error {
 		buf.WriteString(tableSchema)
 		buf.WriteByte(';')
 	}
+	if err := tableRows.Err(); err != nil {
+		return errors.Wrap(err, `failed to list tables`)
+	}
 
 	return NewReaderSource(&buf).WriteSchema(dst)
 }
-- 
2.43.0


From 21b0241a2a4cc46b76a802c0083a1b958d4f6fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 10/33] fix: quote backticks in table names asked from MySQL

---
 source.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source.go b/source.go
index 0234ff3..5cdca1f 100644
--- a/source.go
+++ b/source.go
@@ -219,7 +219,7 @@ func (s mysqlSource) WriteSchema(dst io.Writer) error {
 			return errors.Wrap(err, `failed to scan tables`)
 		}
 
-		if err = db.QueryRow("SHOW CREATE TABLE `"+table+"`").Scan(&table, &tableSchema); err != nil {
+		if err = db.QueryRow("SHOW CREATE TABLE `"+strings.Replace(table, "`", "``", -1)+"`").Scan(&table, &tableSchema); err != nil {
 			return errors.Wrapf(err, `failed to execute 'SHOW CREATE TABLE "%s"'`, table)
 		}
 		if buf.Len() > 0 {
-- 
2.43.0


From 463158a412b2adea747e564e95d3400130f6c06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 11/33] fix: escape quotes in formatted strings

---
 format/format.go | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/format/format.go b/format/format.go
index 02a8159..3246a0a 100644
--- a/format/format.go
+++ b/format/format.go
@@ -3,6 +3,7 @@ package format
 import (
 	"bytes"
 	"io"
+	"strings"
 
 	"github.com/schemalex/schemalex/internal/errors"
 	"github.com/schemalex/schemalex/internal/util"
@@ -87,14 +88,17 @@ func formatDatabase(ctx *fmtCtx, d model.Database) error {
 	return nil
 }
 
+// quoteString surrounds the given string in single quotes, escaping those in it
+func quoteString(s string) string {
+	return "'" + strings.Replace(s, "'", "''", -1) + "'"
+}
+
 func formatTableOption(ctx *fmtCtx, option model.TableOption) error {
 	var buf bytes.Buffer
 	buf.WriteString(option.Key())
 	buf.WriteString(" = ")
 	if option.NeedQuotes() {
-		buf.WriteByte('\'')
-		buf.WriteString(option.Value())
-		buf.WriteByte('\'')
+		buf.WriteString(quoteString(option.Value()))
 	} else {
 		buf.WriteString(option.Value())
 	}
@@ -216,9 +220,7 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 	case model.ColumnTypeEnum:
 		buf.WriteString(" (")
 		for enumValue := range col.EnumValues() {
-			buf.WriteByte('\'')
-			buf.WriteString(enumValue)
-			buf.WriteByte('\'')
+			buf.WriteString(quoteString(enumValue))
 			buf.WriteByte(',')
 		}
 		buf.Truncate(buf.Len() - 1)
@@ -226,9 +228,7 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 	case model.ColumnTypeSet:
 		buf.WriteString(" (")
 		for setValue := range col.SetValues() {
-			buf.WriteByte('\'')
-			buf.WriteString(setValue)
-			buf.WriteByte('\'')
+			buf.WriteString(quoteString(setValue))
 			buf.WriteByte(',')
 		}
 		buf.Truncate(buf.Len() - 1)
@@ -286,9 +286,7 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 	if col.HasDefault() {
 		buf.WriteString(" DEFAULT ")
 		if col.IsQuotedDefault() {
-			buf.WriteByte('\'')
-			buf.WriteString(col.Default())
-			buf.WriteByte('\'')
+			buf.WriteString(quoteString(col.Default()))
 		} else {
 			buf.WriteString(col.Default())
 		}
@@ -309,9 +307,8 @@ func formatTableColumn(ctx *fmtCtx, col model.TableColumn) error {
 	}
 
 	if col.HasComment() {
-		buf.WriteString(" COMMENT '")
-		buf.WriteString(col.Comment())
-		buf.WriteByte('\'')
+		buf.WriteString(" COMMENT ")
+		buf.WriteString(quoteString(col.Comment()))
 	}
 
 	if _, err := buf.WriteTo(ctx.dst); err != nil {
-- 
2.43.0


From 22ae28c6539b629619fbfee0e8a7ccc2d7806138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 12/33] fix: do not take an escaped backslash for the escape of
 a closing quote

---
 lexer.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/lexer.go b/lexer.go
index 5766b11..877abec 100644
--- a/lexer.go
+++ b/lexer.go
@@ -291,14 +291,15 @@ func unescapeQuotes(s string, quot rune) string {
 			continue
 		}
 
-		switch r {
-		case '\\', quot: // possible escape sequence
-			if r2, _, _ := rdr.ReadRune(); r2 == quot {
-				i++
-				r = quot
-			} else {
-				rdr.UnreadRune()
+		switch {
+		case r == '\\' && quot != '`', r == quot: // possible escape sequence
+			r2, _, _ := rdr.ReadRune()
+			i++
+			if r == '\\' && r2 != '\'' && r2 != '"' {
+				// keep other escape sequences as they are
+				buf.WriteRune(r)
 			}
+			r = r2
 		}
 		buf.WriteRune(r)
 	}
@@ -310,9 +311,10 @@ func (l *lexer) runQuote(pair rune) error {
 		r := l.next()
 		if r == eof {
 			return errors.New(`unexpected eof`)
-		} else if r == '\\' {
-			if l.peek() == pair {
-				r = l.next()
+		} else if r == '\\' && pair != '`' {
+			// the next character is escaped, another backslash included
+			if l.next() == eof {
+				return errors.New(`unexpected eof`)
 			}
 		} else if r == pair {
 			if l.peek() == pair {
-- 
2.43.0


From 49b310973377f58360c869d1a3d846abba96ea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:23 +0000
Subject: [PATCH 13/33] fix: escape backquotes in names

---
 diff/diff.go          | 38 ++++++++++++++++++++++----------------
 internal/util/util.go |  5 +++--
 2 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/diff/diff.go b/diff/diff.go
index 4c3e08d..2c101eb 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"reflect"
 	"sort"
+	"strings"
 
 	"github.com/deckarep/golang-set"
 	"github.com/schemalex/schemalex"
@@ -181,6 +182,11 @@ func Sources(dst io.Writer, from, to schemalex.SchemaSource, options ...Option)
 	return Strings(dst, fromStr, buf.String(), options...)
 }
 
+// escapeName escapes backquotes in a name that is written between backquotes
+func escapeName(s string) string {
+	return strings.Replace(s, "`", "``", -1)
+}
+
 func dropTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 	var buf bytes.Buffer
 	ids := ctx.fromSet.Difference(ctx.toSet)
@@ -199,7 +205,7 @@ func dropTables(ctx *diffCtx, dst io.Writer) (int64, error) {
 			return 0, errors.Errorf(`lookup failed: %s is not a model.Table`, id)
 		}
 		buf.WriteString("DROP TABLE `")
-		buf.WriteString(table.Name())
+		buf.WriteString(escapeName(table.Name()))
 		buf.WriteString("`;")
 	}
 
@@ -323,14 +329,14 @@ func dropTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 			buf.WriteByte('\n')
 		}
 		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
+		buf.WriteString(escapeName(ctx.from.Name()))
 		buf.WriteString("` DROP COLUMN `")
 		col, ok := ctx.from.LookupColumn(columnName)
 		if !ok {
 			return 0, errors.Errorf(`failed to lookup column %s`, columnName)
 		}
 
-		buf.WriteString(col.Name())
+		buf.WriteString(escapeName(col.Name()))
 		buf.WriteString("`;")
 	}
 
@@ -422,14 +428,14 @@ func writeAddColumn(ctx *alterCtx, buf *bytes.Buffer, columnNames ...string) err
 			buf.WriteByte('\n')
 		}
 		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
+		buf.WriteString(escapeName(ctx.from.Name()))
 		buf.WriteString("` ADD COLUMN ")
 		if err := format.SQL(buf, stmt); err != nil {
 			return err
 		}
 		if hasBeforeCol {
 			buf.WriteString(" AFTER `")
-			buf.WriteString(beforeCol.Name())
+			buf.WriteString(escapeName(beforeCol.Name()))
 			buf.WriteString("`")
 		} else {
 			buf.WriteString(" FIRST")
@@ -462,9 +468,9 @@ func alterTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 			buf.WriteByte('\n')
 		}
 		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
+		buf.WriteString(escapeName(ctx.from.Name()))
 		buf.WriteString("` CHANGE COLUMN `")
-		buf.WriteString(afterColumnStmt.Name())
+		buf.WriteString(escapeName(afterColumnStmt.Name()))
 		buf.WriteString("` ")
 		if err := format.SQL(&buf, afterColumnStmt); err != nil {
 			return 0, err
@@ -492,7 +498,7 @@ func dropTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 				buf.WriteByte('\n')
 			}
 			buf.WriteString("ALTER TABLE `")
-			buf.WriteString(ctx.from.Name())
+			buf.WriteString(escapeName(ctx.from.Name()))
 			buf.WriteString("` DROP PRIMARY KEY;")
 			continue
 		}
@@ -509,12 +515,12 @@ func dropTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 			buf.WriteByte('\n')
 		}
 		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
+		buf.WriteString(escapeName(ctx.from.Name()))
 		buf.WriteString("` DROP FOREIGN KEY `")
 		if indexStmt.HasSymbol() {
-			buf.WriteString(indexStmt.Symbol())
+			buf.WriteString(escapeName(indexStmt.Symbol()))
 		} else {
-			buf.WriteString(indexStmt.Name())
+			buf.WriteString(escapeName(indexStmt.Name()))
 		}
 		buf.WriteString("`;")
 	}
@@ -524,12 +530,12 @@ func dropTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 			buf.WriteByte('\n')
 		}
 		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
+		buf.WriteString(escapeName(ctx.from.Name()))
 		buf.WriteString("` DROP INDEX `")
 		if !indexStmt.HasName() {
-			buf.WriteString(indexStmt.Symbol())
+			buf.WriteString(escapeName(indexStmt.Symbol()))
 		} else {
-			buf.WriteString(indexStmt.Name())
+			buf.WriteString(escapeName(indexStmt.Name()))
 		}
 
 		buf.WriteString("`;")
@@ -557,7 +563,7 @@ func addTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 			buf.WriteByte('\n')
 		}
 		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
+		buf.WriteString(escapeName(ctx.from.Name()))
 		buf.WriteString("` ADD ")
 		if err := format.SQL(&buf, indexStmt); err != nil {
 			return 0, err
@@ -570,7 +576,7 @@ func addTableIndexes(ctx *alterCtx, dst io.Writer) (int64, error) {
 			buf.WriteByte('\n')
 		}
 		buf.WriteString("ALTER TABLE `")
-		buf.WriteString(ctx.from.Name())
+		buf.WriteString(escapeName(ctx.from.Name()))
 		buf.WriteString("` ADD ")
 		if err := format.SQL(&buf, indexStmt); err != nil {
 			return 0, err
diff --git a/internal/util/util.go b/internal/util/util.go
index b2a4a5a..9e3272f 100644
--- a/internal/util/util.go
+++ b/internal/util/util.go
@@ -1,7 +1,8 @@
 package util
 
+import "strings"
+
 // Backquote surrounds the given string in backquotes
 func Backquote(s string) string {
-	// XXX Does this require escaping
-	return "`" + s + "`"
+	return "`" + strings.Replace(s, "`", "``", -1) + "`"
 }
-- 
2.43.0


From 55bb6665d4a80e1382629cabbc790cdb68e40f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:54 +0000
Subject: [PATCH 14/33] fix: normalize lengths, ZEROFILL and NULL defaults as
 MySQL shows them

---
 model/table_column.go | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/model/table_column.go b/model/table_column.go
index ab06d88..ee55063 100644
--- a/model/table_column.go
+++ b/model/table_column.go
@@ -262,11 +262,16 @@ func (t *tablecol) SetValues() chan string {
 func (t *tablecol) NativeLength() Length {
 	// I referred to perl: SQL::Translator::Parser::MySQL#normalize_field https://metacpan.org/source/SQL::Translator::Parser::MySQL#L1072
 	unsigned := 0
-	if t.IsUnsigned() {
+	// ZEROFILL implies UNSIGNED
+	if t.IsUnsigned() || t.IsZeroFill() {
 		unsigned++
 	}
 	var size int
 	switch t.Type() {
+	case ColumnTypeBit, ColumnTypeChar, ColumnTypeBinary:
+		size = 1
+	case ColumnTypeYear:
+		size = 4
 	case ColumnTypeBool, ColumnTypeBoolean:
 		// bool and boolean is tinyint(1)
 		size = 1
@@ -307,6 +312,17 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 			clone = true
 			length = l
 		}
+	} else if typ := t.Type(); typ == ColumnTypeDecimal || typ == ColumnTypeNumeric {
+		if l := t.Length(); !l.HasDecimal() {
+			clone = true
+			length = NewLength(l.Length()).SetDecimal("0")
+		}
+	}
+
+	// ZEROFILL implies UNSIGNED
+	setUnsigned := t.IsZeroFill() && !t.IsUnsigned()
+	if setUnsigned {
+		clone = true
 	}
 
 	if typ := t.Type(); typ.SynonymType() != typ {
@@ -322,8 +338,18 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 		nullState = NullStateNone
 	}
 
+	var removeDefault bool
 	if t.HasDefault() {
 		switch t.Type() {
+		case ColumnTypeTinyText, ColumnTypeTinyBlob,
+			ColumnTypeBlob, ColumnTypeText,
+			ColumnTypeMediumBlob, ColumnTypeMediumText,
+			ColumnTypeLongBlob, ColumnTypeLongText:
+			// DEFAULT NULL is the only default they can have
+			if !t.IsQuotedDefault() && t.Default() == "NULL" {
+				clone = true
+				removeDefault = true
+			}
 		case ColumnTypeTinyInt, ColumnTypeSmallInt,
 			ColumnTypeMediumInt, ColumnTypeInt,
 			ColumnTypeInteger, ColumnTypeBigInt,
@@ -378,6 +404,15 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 
 	col.SetNullState(nullState)
 
+	if setUnsigned {
+		col.SetUnsigned(true)
+	}
+
+	if removeDefault {
+		col.(*tablecol).defaultValue.Valid = false
+		col.(*tablecol).defaultValue.Value = ""
+	}
+
 	if removeQuotes {
 		col.SetDefault(t.Default(), false)
 	}
-- 
2.43.0


From 7ee3e847cccbe8dbefd0ab367b6d641686f7c2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:10 +0000
Subject: [PATCH 15/33] fix: normalize quoted BOOL and TRUE/FALSE numeric
 defaults

---
 model/table_column.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/model/table_column.go b/model/table_column.go
index ee55063..6cdd085 100644
--- a/model/table_column.go
+++ b/model/table_column.go
@@ -354,13 +354,14 @@ func (t *tablecol) Normalize() (TableColumn, bool) {
 			ColumnTypeMediumInt, ColumnTypeInt,
 			ColumnTypeInteger, ColumnTypeBigInt,
 			ColumnTypeFloat, ColumnTypeDouble,
-			ColumnTypeDecimal, ColumnTypeNumeric, ColumnTypeReal:
+			ColumnTypeDecimal, ColumnTypeNumeric, ColumnTypeReal,
+			ColumnTypeBool, ColumnTypeBoolean:
 			// If numeric type then trim quote
 			if t.IsQuotedDefault() {
 				clone = true
 				removeQuotes = true
+				break
 			}
-		case ColumnTypeBool, ColumnTypeBoolean:
 			switch t.Default() {
 			case "TRUE":
 				clone = true
-- 
2.43.0


From 610c7e978c0965c82e75b54387392587480dfb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:11 +0000
Subject: [PATCH 16/33] fix: do not distinguish the case of ON UPDATE values

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index f571f3b..2f90f87 100644
--- a/parser.go
+++ b/parser.go
@@ -943,7 +943,7 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 			}
 			ctx.skipWhiteSpaces()
 			v := ctx.next()
-			col.SetAutoUpdate(v.Value)
+			col.SetAutoUpdate(strings.ToUpper(v.Value))
 		case DEFAULT:
 			if !check(coloptDefault) {
 				return newParseError(ctx, t, "cannot apply DEFAULT")
-- 
2.43.0


From 793090f03ceea7e35522d5e588482bdf65dca482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:16 +0000
Subject: [PATCH 17/33] fix: compare RESTRICT and MATCH SIMPLE as the defaults
 they are

---
 model/reference.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/model/reference.go b/model/reference.go
index d1fb6ce..1606057 100644
--- a/model/reference.go
+++ b/model/reference.go
@@ -15,6 +15,11 @@ func NewReference() Reference {
 }
 
 func (r *reference) ID() string {
+	// what is not given is the same as RESTRICT and MATCH SIMPLE
+	if r.onDelete == ReferenceOptionRestrict || r.onUpdate == ReferenceOptionRestrict || r.match == ReferenceMatchSimple {
+		return r.withoutDefaults().ID()
+	}
+
 	h := sha256.New()
 	fmt.Fprintf(h,
 		"%s.%s.%s.%s",
@@ -30,6 +35,20 @@ func (r *reference) ID() string {
 	return fmt.Sprintf("reference#%x", h.Sum(nil))
 }
 
+func (r *reference) withoutDefaults() *reference {
+	c := *r
+	if c.match == ReferenceMatchSimple {
+		c.match = ReferenceMatchNone
+	}
+	if c.onDelete == ReferenceOptionRestrict {
+		c.onDelete = ReferenceOptionNone
+	}
+	if c.onUpdate == ReferenceOptionRestrict {
+		c.onUpdate = ReferenceOptionNone
+	}
+	return &c
+}
+
 func (r *reference) AddColumns(l ...IndexColumn) {
 	r.columns = append(r.columns, l...)
 }
-- 
2.43.0


From 4ce45a1e1730b75e34378f028bdcab7f768dec18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:32 +0000
Subject: [PATCH 18/33] fix: find the declared index of a foreign key when it
 comes after the constraint

A key declared after the constraint it belongs to was not seen, and an
index of the same name was added a second time.
---
 model/table.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/model/table.go b/model/table.go
index 2407946..0da6067 100644
--- a/model/table.go
+++ b/model/table.go
@@ -191,6 +191,12 @@ func (t *table) Normalize() (Table, bool) {
 
 	var indexes []Index
 	var seen = make(map[string]struct{})
+	for idx := range t.Indexes() {
+		// an explicitly declared index may come after the constraint
+		if !idx.IsForeignKey() && idx.HasName() {
+			seen[idx.Name()] = struct{}{}
+		}
+	}
 	for idx := range t.Indexes() {
 		nidx, modified := idx.Normalize()
 		if modified {
-- 
2.43.0


From a6a3138f7083f4a75c2386e9b09317744da8c6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:06 +0000
Subject: [PATCH 19/33] fix: report errors in ENUM and SET value lists

The error was dropped and parsing went on behind the list, so a damaged
list was accepted as a column without values.
---
 parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index 2f90f87..760bb7f 100644
--- a/parser.go
+++ b/parser.go
@@ -886,9 +886,13 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 				l.SetDecimal(tscale)
 				col.SetLength(l)
 			} else if check(coloptEnumValues) {
-				ctx.parseSetOrEnum(col.SetEnumValues)
+				if err := ctx.parseSetOrEnum(col.SetEnumValues); err != nil {
+					return err
+				}
 			} else if check(coloptSetValues) {
-				ctx.parseSetOrEnum(col.SetSetValues)
+				if err := ctx.parseSetOrEnum(col.SetSetValues); err != nil {
+					return err
+				}
 			} else {
 				return newParseError(ctx, t, "cannot apply coloptSize, coloptDecimalSize, coloptDecimalOptionalSize, coloptEnumValues, coloptSetValues")
 			}
-- 
2.43.0


From 958564898fd86224f08baf34a8e70ec4c681e0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:56 +0000
Subject: [PATCH 20/33] fix: require a name after CHARACTER SET and COLLATE

Any token was taken for the name, including a comma, a parenthesis and
a zero byte.
---
 parser.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/parser.go b/parser.go
index 760bb7f..585b82f 100644
--- a/parser.go
+++ b/parser.go
@@ -903,10 +903,16 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 			}
 			ctx.skipWhiteSpaces()
 			v := ctx.next()
+			if !isCharsetName(v) {
+				return newParseError(ctx, v, "expected character set name")
+			}
 			col.SetCharacterSet(v.Value)
 		case COLLATE:
 			ctx.skipWhiteSpaces()
 			v := ctx.next()
+			if !isCharsetName(v) {
+				return newParseError(ctx, v, "expected collation name")
+			}
 			col.SetCollation(v.Value)
 		case UNSIGNED:
 			if !check(coloptUnsigned) {
@@ -1021,6 +1027,15 @@ func (p *Parser) parseColumnOption(ctx *parseCtx, col model.TableColumn, f int)
 	}
 }
 
+// isCharsetName tells whether a token can name a character set or collation
+func isCharsetName(t *Token) bool {
+	switch t.Type {
+	case IDENT, BACKTICK_IDENT, SINGLE_QUOTE_IDENT, DOUBLE_QUOTE_IDENT, BINARY:
+		return true
+	}
+	return false
+}
+
 func (ctx *parseCtx) parseSetOrEnum(setter func([]string) model.TableColumn) error {
 	var values []string
 OUTER:
-- 
2.43.0


From 8473c47cfc61a5e0c284949bf3e0bbecaa9a18eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:55 +0000
Subject: [PATCH 21/33] fix: lock the table when indexes and options are added
 and when it is listed

Columns() blocked forever when a column was added between making the
channel and filling it, and concurrent AddIndex calls lost indexes. Only
AddColumn and the column lookups took the lock.
---
 model/table.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/model/table.go b/model/table.go
index 0da6067..4a012e9 100644
--- a/model/table.go
+++ b/model/table.go
@@ -73,11 +73,17 @@ func (t *table) AddColumn(v TableColumn) Table {
 }
 
 func (t *table) AddIndex(v Index) Table {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+
 	t.indexes = append(t.indexes, v)
 	return t
 }
 
 func (t *table) AddOption(v TableOption) Table {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+
 	t.options = append(t.options, v)
 	return t
 }
@@ -119,6 +125,9 @@ func (t *table) SetTemporary(v bool) Table {
 }
 
 func (t *table) Columns() chan TableColumn {
+	t.mu.RLock()
+	defer t.mu.RUnlock()
+
 	ch := make(chan TableColumn, len(t.columns))
 	for _, col := range t.columns {
 		ch <- col
@@ -128,6 +137,9 @@ func (t *table) Columns() chan TableColumn {
 }
 
 func (t *table) Indexes() chan Index {
+	t.mu.RLock()
+	defer t.mu.RUnlock()
+
 	ch := make(chan Index, len(t.indexes))
 	for _, idx := range t.indexes {
 		ch <- idx
@@ -137,6 +149,9 @@ func (t *table) Indexes() chan Index {
 }
 
 func (t *table) Options() chan TableOption {
+	t.mu.RLock()
+	defer t.mu.RUnlock()
+
 	ch := make(chan TableOption, len(t.options))
 	for _, idx := range t.options {
 		ch <- idx
-- 
2.43.0


From bb90c23470c38bfc3d702e6b8d8786f867accdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:08 +0000
Subject: [PATCH 22/33] fix: do not send the ssl-* parameters to the server

The driver sets every parameter it does not know as a system variable,
so with tls=true every connection failed with a syntax error.
---
 source.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source.go b/source.go
index 5cdca1f..4fa1dfe 100644
--- a/source.go
+++ b/source.go
@@ -142,6 +142,12 @@ func (s mysqlSource) MySQLConfig() (*mysql.Config, error) {
 			return nil, errors.New(`to enable tls, you must provide ssl-ca, ssl-cert, and ssl-secret parameters to the DSN`)
 		}
 
+		// These are for us only: the driver would set them as system
+		// variables, which the server rejects
+		delete(cfg.Params, "ssl-ca")
+		delete(cfg.Params, "ssl-cert")
+		delete(cfg.Params, "ssl-secret")
+
 		// When comparing two mysql schemas against eachother, we will have
 		// multiple calls to RegisterTLSConfig, and in that case we need
 		// unique names for both.
-- 
2.43.0


From 323feb24e8254b79585a438ccddd8612726eb46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:09 +0000
Subject: [PATCH 23/33] fix: keep passwords out of error messages

The sources' DSN is printed in errors ("failed to retrieve schema from ..."),
and so was a URI that cannot be parsed.
---
 source.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/source.go b/source.go
index 4fa1dfe..6889792 100644
--- a/source.go
+++ b/source.go
@@ -60,6 +60,10 @@ func NewSchemaSource(uri string) (SchemaSource, error) {
 
 	u, err := url.Parse(uri)
 	if err != nil {
+		// the uri may contain a password, do not repeat it
+		if uerr, ok := err.(*url.Error); ok {
+			err = uerr.Err
+		}
 		return nil, errors.Wrap(err, `failed to parse uri`)
 	}
 
@@ -124,6 +128,16 @@ func (s *readerSource) WriteSchema(dst io.Writer) error {
 	return nil
 }
 
+// String describes the source in messages, which must not contain
+// the password
+func (s mysqlSource) String() string {
+	cfg, err := mysql.ParseDSN(string(s))
+	if err != nil {
+		return "mysql"
+	}
+	return fmt.Sprintf("mysql://%s@%s(%s)/%s", cfg.User, cfg.Net, cfg.Addr, cfg.DBName)
+}
+
 // MySQLConfig creates a *mysql.Config struct from the given DSN.
 func (s mysqlSource) MySQLConfig() (*mysql.Config, error) {
 	cfg, err := mysql.ParseDSN(string(s))
-- 
2.43.0


From e00d8854db51ae840ed061d001dba4e7fd1098c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:39 +0000
Subject: [PATCH 24/33] fix: write DELAY_KEY_WRITE, not DATA_KEY_WRITE

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 585b82f..bcf60c3 100644
--- a/parser.go
+++ b/parser.go
@@ -731,7 +731,7 @@ func (p *Parser) parseCreateTableOptions(ctx *parseCtx, table model.Table) error
 				return err
 			}
 		case DELAY_KEY_WRITE:
-			if err := p.parseCreateTableOptionValue(ctx, table, "DATA_KEY_WRITE", NUMBER); err != nil {
+			if err := p.parseCreateTableOptionValue(ctx, table, "DELAY_KEY_WRITE", NUMBER); err != nil {
 				return err
 			}
 		case INDEX:
-- 
2.43.0


From 5fcc48344bcf89fb79b4b15316788a1fdafdbd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:39 +0000
Subject: [PATCH 25/33] fix: accept PACK_KEYS=DEFAULT

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index bcf60c3..a964de1 100644
--- a/parser.go
+++ b/parser.go
@@ -759,7 +759,7 @@ func (p *Parser) parseCreateTableOptions(ctx *parseCtx, table model.Table) error
 				return err
 			}
 		case PACK_KEYS:
-			if err := p.parseCreateTableOptionValue(ctx, table, "PACK_KEYS", NUMBER, IDENT); err != nil {
+			if err := p.parseCreateTableOptionValue(ctx, table, "PACK_KEYS", NUMBER, IDENT, DEFAULT); err != nil {
 				return err
 			}
 		case PASSWORD:
-- 
2.43.0


From 3ec05d3a6fc10a77ab4ce8cb698ed70bc5108e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:39 +0000
Subject: [PATCH 26/33] fix: accept CHARSET without DEFAULT as a table option

---
 parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser.go b/parser.go
index a964de1..0df933e 100644
--- a/parser.go
+++ b/parser.go
@@ -698,6 +698,10 @@ func (p *Parser) parseCreateTableOptions(ctx *parseCtx, table model.Table) error
 			if err := p.parseCreateTableOptionValue(ctx, table, name, IDENT, BACKTICK_IDENT); err != nil {
 				return err
 			}
+		case CHARSET:
+			if err := p.parseCreateTableOptionValue(ctx, table, "DEFAULT CHARACTER SET", IDENT, BACKTICK_IDENT); err != nil {
+				return err
+			}
 		case CHARACTER:
 			ctx.skipWhiteSpaces()
 			if t := ctx.next(); t.Type != SET {
-- 
2.43.0


From 81b0448dcff00f6d2614edf1fa757133450feaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:15 +0000
Subject: [PATCH 27/33] fix: accept the display width of YEAR, which the server
 shows

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 0df933e..c6ccef1 100644
--- a/parser.go
+++ b/parser.go
@@ -565,7 +565,7 @@ func (p *Parser) parseTableColumnSpec(ctx *parseCtx, col model.TableColumn) erro
 		colopt = coloptFlagTime
 	case YEAR:
 		coltyp = model.ColumnTypeYear
-		colopt = coloptFlagNone
+		colopt = coloptFlagTime
 	case CHAR:
 		coltyp = model.ColumnTypeChar
 		colopt = coloptFlagChar
-- 
2.43.0


From 255a8a296c2c3d0b8938d18b18ab9af993b720b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:15 +0000
Subject: [PATCH 28/33] fix: accept SPATIAL KEY as well as SPATIAL INDEX

---
 parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser.go b/parser.go
index c6ccef1..c79841d 100644
--- a/parser.go
+++ b/parser.go
@@ -1160,9 +1160,9 @@ func (p *Parser) parseColumnIndexSpatialKey(ctx *parseCtx, index model.Index) er
 		return newParseError(ctx, t, "expected SPATIAL")
 	}
 
-	// optional INDEX
+	// optional INDEX or KEY
 	ctx.skipWhiteSpaces()
-	if t := ctx.peek(); t.Type == INDEX {
+	if t := ctx.peek(); t.Type == INDEX || t.Type == KEY {
 		ctx.advance()
 	}
 
-- 
2.43.0


From af067c1f0d2c4ef77966097b1726ef579eedee02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:15 +0000
Subject: [PATCH 29/33] fix: take an inline KEY for the primary key it declares

---
 model/table.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/model/table.go b/model/table.go
index 4a012e9..7b25f6e 100644
--- a/model/table.go
+++ b/model/table.go
@@ -173,7 +173,7 @@ func (t *table) Normalize() (Table, bool) {
 		// column_definition [UNIQUE [KEY] | [PRIMARY] KEY]
 		// they mean same as INDEX or CONSTRAINT
 		switch {
-		case ncol.IsPrimary():
+		case ncol.IsPrimary() || ncol.IsKey():
 			// we have to move off the index declaration from the
 			// primary key column to an index associated with the table
 			index := NewIndex(IndexKindPrimaryKey, t.ID())
@@ -186,6 +186,7 @@ func (t *table) Normalize() (Table, bool) {
 			}
 			ncol = ncol.Clone()
 			ncol.SetPrimary(false)
+			ncol.SetKey(false)
 		case ncol.IsUnique():
 			index := NewIndex(IndexKindUnique, t.ID())
 			// if you do not assign a name, the index is assigned the same name as the first indexed column
-- 
2.43.0


From 808b771c79f95fb08c4cbe7db011c4a8db7d91d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:33 +0000
Subject: [PATCH 30/33] fix: reject NUL bytes anywhere in a schema

---
 parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser.go b/parser.go
index c79841d..4ddd888 100644
--- a/parser.go
+++ b/parser.go
@@ -1,6 +1,7 @@
 package schemalex
 
 import (
+	"bytes"
 	"context"
 	"io/ioutil"
 	"strings"
@@ -149,6 +150,14 @@ func (p *Parser) Parse(src []byte) (model.Stmts, error) {
 
 	ctx := newParseCtx(cctx)
 	ctx.input = src
+
+	// NUL cannot be in a schema, but is where a file has lost its data.
+	// In comments, strings, or statements that we skip, it may have taken
+	// the place of where they end, and of the definitions after that
+	if i := bytes.IndexByte(src, 0); i >= 0 {
+		t := Token{Type: ILLEGAL, Pos: i, Line: 1 + bytes.Count(src[:i], []byte{'\n'}), Col: i - bytes.LastIndexByte(src[:i], '\n')}
+		return nil, newParseError(ctx, &t, "unexpected NUL")
+	}
 	ctx.lexsrc = lex(cctx, src)
 
 	var stmts model.Stmts
-- 
2.43.0


From 6944a344ac0a8b2f66d7de5a5274f932b67f4910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:41 +0000
Subject: [PATCH 31/33] fix: take a source without a scheme as the name of a
 file as it is

A name with '#' or '?' was cut off there, and one with '%' unescaped, so
another file was read, or none.
---
 source.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source.go b/source.go
index 6889792..eb76eac 100644
--- a/source.go
+++ b/source.go
@@ -58,6 +58,12 @@ func NewSchemaSource(uri string) (SchemaSource, error) {
 		return NewMySQLSource(uri[8:]), nil
 	}
 
+	// A string without a scheme is the name of a file as it is, and must
+	// not be split or unescaped like a URI
+	if i := strings.IndexAny(uri, ":/?#"); (i < 0 || uri[i] != ':') && !strings.HasPrefix(uri, "//") {
+		return NewLocalFileSource(uri), nil
+	}
+
 	u, err := url.Parse(uri)
 	if err != nil {
 		// the uri may contain a password, do not repeat it
-- 
2.43.0


From 9cdbc7b45b9fa20a207729e17a549b1b7f0c6d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:07 +0000
Subject: [PATCH 32/33] fix: a local-git source delivers the file or an error

git show succeeds without the file for a range of commits (HEAD~1..HEAD)
or a commitish that looks like an option, and lists a directory.
---
 source.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source.go b/source.go
index eb76eac..95fb26b 100644
--- a/source.go
+++ b/source.go
@@ -264,7 +264,9 @@ func (s mysqlSource) WriteSchema(dst io.Writer) error {
 
 func (s localGitSource) WriteSchema(dst io.Writer) error {
 	var out bytes.Buffer
-	cmd := exec.Command("git", "show", fmt.Sprintf("%s:%s", s.commitish, s.file))
+	// git show would take a range, or a commitish with a dash, for something
+	// else to show, and succeed without the file
+	cmd := exec.Command("git", "cat-file", "blob", fmt.Sprintf("%s:%s", s.commitish, s.file))
 	cmd.Stdout = &out
 	cmd.Dir = s.dir
 
-- 
2.43.0


From 24e40bd390ea5c88ca4575b22f46b9f7f697f034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:26 +0000
Subject: [PATCH 33/33] fix: report a column that cannot be added instead of
 writing half a statement

---
 diff/diff.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/diff/diff.go b/diff/diff.go
index 2c101eb..e453ece 100644
--- a/diff/diff.go
+++ b/diff/diff.go
@@ -375,7 +375,9 @@ func addTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 
 	// First column is always safe to add
 	if firstColumn != nil {
-		writeAddColumn(ctx, &buf, firstColumn.ID())
+		if err := writeAddColumn(ctx, &buf, firstColumn.ID()); err != nil {
+			return 0, err
+		}
 	}
 
 	var columnNames []string
@@ -391,7 +393,9 @@ func addTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 
 	if len(columnNames) > 0 {
 		sort.Strings(columnNames)
-		writeAddColumn(ctx, &buf, columnNames...)
+		if err := writeAddColumn(ctx, &buf, columnNames...); err != nil {
+			return 0, err
+		}
 	}
 
 	// Finally, we process the remaining columns.
@@ -411,7 +415,9 @@ func addTableColumns(ctx *alterCtx, dst io.Writer) (int64, error) {
 			jcol, _ := ctx.to.LookupColumnOrder(columnNames[j])
 			return icol < jcol
 		})
-		writeAddColumn(ctx, &buf, columnNames...)
+		if err := writeAddColumn(ctx, &buf, columnNames...); err != nil {
+			return 0, err
+		}
 	}
 	return buf.WriteTo(dst)
 }
-- 
2.43.0

