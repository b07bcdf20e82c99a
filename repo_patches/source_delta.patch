From 40c3a0baa3bf5f3c00d1c64288430a52d2d6d900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 01/91] fix: do not crash on a file whose first token is
 illegal

parseFile returns nil when the first token already gave a scan error.
---
 pkg/parser/interface.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/parser/interface.go b/pkg/parser/interface.go
index 3a58826..1c4fe92 100644
--- a/pkg/parser/interface.go
+++ b/pkg/parser/interface.go
@@ -83,7 +83,9 @@ func ParseFile(fset *token.FileSet, filename string, src interface{}, mode Mode)
 	// parse source
 	p.init(fset, filename, text, mode)
 	f = p.parseFile()
-	f.Path = filename
+	if f != nil {
+		f.Path = filename
+	}
 	return
 }
 
-- 
2.43.0


From 452eb5ee7313966989f755266111ecb493f379ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 02/91] fix: do not print a parse trace unless tracing is on

---
 pkg/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index a0fc84d..be2e770 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -640,7 +640,7 @@ func (p *parser) parseMapType(value *ast.VarType) *ast.MapType {
 }
 
 func (p *parser) tryIdentOrType() ast.Type {
-	if p.tok != token.IDENT {
+	if p.trace {
 		defer un(trace(p, "TypeName"))
 	}
 	v := &ast.VarType{
-- 
2.43.0


From 17acd6f8113369320ecc54ce9d78603c5e4df5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 03/91] fix: reject array and map method types instead of
 crashing

---
 pkg/parser/parser.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index be2e770..25291b1 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -595,6 +595,24 @@ func (p *parser) parseVarType() ast.Type {
 	return typ
 }
 
+// parseMethodType parses the type of a result or parameter, which can only be
+// the plain name of a data type.
+func (p *parser) parseMethodType() *ast.VarType {
+	pos := p.pos
+	typ := p.parseVarType()
+	switch t := typ.(type) {
+	case *ast.VarType:
+		return t
+	case *ast.ArrayType:
+		p.error(pos, "Type can only be data")
+		return t.VType
+	case *ast.MapType:
+		p.error(pos, "Type can only be data")
+		return t.VType
+	}
+	return &ast.VarType{TypeExpr: &ast.BadExpr{From: pos, To: p.pos}}
+}
+
 func (p *parser) parseMethodSpec() *ast.FuncType {
 	if p.trace {
 		defer un(trace(p, "MethodSpec"))
@@ -602,18 +620,18 @@ func (p *parser) parseMethodSpec() *ast.FuncType {
 
 	doc := p.leadComment
 	tags := p.parseTags()
-	result := p.parseVarType()
+	result := p.parseMethodType()
 	name := p.parseIdent()
 	p.expect(token.LPAREN)
-	param := p.parseVarType()
+	param := p.parseMethodType()
 	paramName := p.parseIdent()
 	p.expect(token.RPAREN)
 	id := p.parseId()
 
 	var typ = &ast.FuncType{
-		Result:    result.(*ast.VarType),
+		Result:    result,
 		Name:      name,
-		Param:     param.(*ast.VarType),
+		Param:     param,
 		ParamName: paramName,
 		Doc:       doc,
 		Comment:   doc,
-- 
2.43.0


From a299b457473f704b0fb8da836accb51f0f5702a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 04/91] fix: an enum item needs '=' before its id

Any token used to be taken for it.
---
 pkg/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 25291b1..71d0f62 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -847,7 +847,7 @@ func (p *parser) parseEnumItem(scope *ast.Scope) *ast.EnumItem {
 	name := p.parseIdent()
 
 	var id *ast.BasicLit
-	p.next()
+	p.expect(token.ASSIGN)
 	if p.tok != token.INT {
 		p.errorExpected(p.pos, "not find int")
 	}
-- 
2.43.0


From 979c0f2467527ed310a12bfb2c7a09b9d7ca3acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 05/91] fix: end a server method at its separator

The token after a method was skipped whatever it was, so a closing brace on
the same line, or the start of another member, got lost.
---
 pkg/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/parser/parser.go b/pkg/parser/parser.go
index 71d0f62..bec3d58 100644
--- a/pkg/parser/parser.go
+++ b/pkg/parser/parser.go
@@ -878,7 +878,7 @@ func (p *parser) parseServerSpec(doc *ast.CommentGroup, tags []*ast.Tag) ast.Spe
 	var list []*ast.FuncType
 	for p.tok != token.RBRACE && p.tok != token.EOF {
 		list = append(list, p.parseMethodSpec())
-		p.next()
+		p.expectSemi()
 	}
 	rbrace := p.expect(token.RBRACE)
 
-- 
2.43.0


From ddf76f71bbb11a2997e554602da5bc7d6c028a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 06/91] fix: report a lone '/' as an illegal character

---
 pkg/scanner/scanner.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index 1d3d44d..d6c8434 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -780,6 +780,11 @@ scanAgain:
 				}
 				tok = token.COMMENT
 				lit = comment
+			} else {
+				s.errorf(s.file.Offset(pos), "illegal character %#U", ch)
+				insertSemi = s.insertSemi // preserve insertSemi info
+				tok = token.ILLEGAL
+				lit = string(ch)
 			}
 		case '=':
 			tok = token.ASSIGN
-- 
2.43.0


From 723e7c7fce80b8f2dedf2d96ac00852a34d76a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 07/91] fix: reject an unknown map key type instead of crashing

---
 pkg/build/build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index bb87369..2a0049f 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -265,7 +265,7 @@ func (b *Builder) checkDataMapKey(file *ast.File, varType *ast.VarType) error {
 			return nil
 		}
 		obj := b.GetDataType(file, varType.TypeExpr.(*ast.Ident).Name)
-		if obj.Kind == ast.Enum {
+		if nil != obj && obj.Kind == ast.Enum {
 			varType.TypeExpr.(*ast.Ident).Obj = obj
 			return nil
 		}
-- 
2.43.0


From e361f69cdefaa30486fef3a4d2ac2a4b18bbba75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 08/91] fix: check the keys of every tag, enum tags included

---
 pkg/build/build.go | 5 ++++-
 pkg/build/enum.go  | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 2a0049f..5558ac0 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -310,7 +310,10 @@ func (b *Builder) checkTags(tags []*ast.Tag) error {
 	}
 
 	for _, tag := range tags {
-		return b.checkKeyValue(tag.KV)
+		err := b.checkKeyValue(tag.KV)
+		if err != nil {
+			return err
+		}
 	}
 	return nil
 }
diff --git a/pkg/build/enum.go b/pkg/build/enum.go
index aa4acf6..a24da0e 100644
--- a/pkg/build/enum.go
+++ b/pkg/build/enum.go
@@ -6,6 +6,10 @@ import (
 )
 
 func (b *Builder) checkEnum(file *ast.File, enum *ast.EnumType, index int) error {
+	err := b.checkTags(enum.Tags)
+	if err != nil {
+		return err
+	}
 	name := enum.Name.Name
 	if _, ok := _keys[BaseType(name)]; ok {
 		return scanner.Error{
@@ -21,7 +25,7 @@ func (b *Builder) checkEnum(file *ast.File, enum *ast.EnumType, index int) error
 		}
 	}
 
-	err := b.checkEnumItem(file, enum)
+	err = b.checkEnumItem(file, enum)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 2c93f294ae72a94160b783de2022e6e5e4c724c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 09/91] fix: check and build files in a fixed order

Map order decided which of several errors was reported, and which file won
when two had the same name.
---
 pkg/build/build.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 5558ac0..4001298 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -7,6 +7,7 @@ import (
 	"hbuf/pkg/token"
 	"path/filepath"
 	"regexp"
+	"sort"
 	"strings"
 )
 
@@ -131,7 +132,8 @@ func Build(out string, in string, typ string, pack string) error {
 		return err
 	}
 
-	for path, file := range build.pkg.Files {
+	for _, path := range build.paths() {
+		file := build.pkg.Files[path]
 		_, name := filepath.Split(path)
 		err := build.build(file, build.fset, &Param{
 			out:   filepath.Join(build.param.out, name),
@@ -146,8 +148,19 @@ func Build(out string, in string, typ string, pack string) error {
 	return nil
 }
 
+// paths lists the files in a fixed order, so that every run does the same.
+func (b *Builder) paths() []string {
+	paths := make([]string, 0, len(b.pkg.Files))
+	for path := range b.pkg.Files {
+		paths = append(paths, path)
+	}
+	sort.Strings(paths)
+	return paths
+}
+
 func (b *Builder) checkFiles() error {
-	for path, file := range b.pkg.Files {
+	for _, path := range b.paths() {
+		file := b.pkg.Files[path]
 		imports := map[string]void{
 			path: {},
 		}
-- 
2.43.0


From d43bc76647be95e02056081ba9190861fad502fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 10/91] fix: reject cyclic inheritance instead of overflowing
 the stack

---
 pkg/build/build.go | 45 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 4001298..c547619 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -170,9 +170,54 @@ func (b *Builder) checkFiles() error {
 		}
 	}
 
+	return b.checkCycles()
+}
+
+// checkCycles reports a type that inherits from itself. It needs the extends of
+// every file to be resolved.
+func (b *Builder) checkCycles() error {
+	for _, path := range b.paths() {
+		for _, spec := range b.pkg.Files[path].Specs {
+			t, ok := spec.(*ast.TypeSpec)
+			if ok && inherits(t, t, map[*ast.TypeSpec]void{}) {
+				return scanner.Error{
+					Pos: b.fset.Position(t.Name.Pos()),
+					Msg: "Cyclic inheritance: " + t.Name.Name,
+				}
+			}
+		}
+	}
 	return nil
 }
 
+// inherits says whether base is among the direct or indirect bases of typ.
+func inherits(typ, base *ast.TypeSpec, seen map[*ast.TypeSpec]void) bool {
+	var extends []*ast.Extends
+	switch t := typ.Type.(type) {
+	case *ast.DataType:
+		extends = t.Extends
+	case *ast.ServerType:
+		extends = t.Extends
+	}
+	for _, item := range extends {
+		parent, ok := item.Name.Obj.Decl.(*ast.TypeSpec)
+		if !ok {
+			continue
+		}
+		if parent == base {
+			return true
+		}
+		if _, ok := seen[parent]; ok {
+			continue
+		}
+		seen[parent] = void{}
+		if inherits(parent, base, seen) {
+			return true
+		}
+	}
+	return false
+}
+
 func (b *Builder) checkFile(file *ast.File, imports map[string]void) error {
 	for index, s := range file.Specs {
 		switch s.(type) {
-- 
2.43.0


From 7839014cffbbb0722ff91557a30eb7734f0e2e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 11/91] fix: derive names from identifiers with empty or
 non-ASCII parts

A leading, trailing or double underscore made the naming functions panic, and
a non-ASCII first letter was cut in the middle.
---
 pkg/build/build.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index c547619..216cde9 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -9,6 +9,7 @@ import (
 	"regexp"
 	"sort"
 	"strings"
+	"unicode/utf8"
 )
 
 type BaseType string
@@ -489,8 +490,9 @@ func StringToHumpName(val string) string {
 	temp := strings.Split(val, "_")
 	var ret string
 	for _, item := range temp {
-		ret += strings.ToUpper(item[:1])
-		ret += item[1:]
+		_, size := utf8.DecodeRuneInString(item)
+		ret += strings.ToUpper(item[:size])
+		ret += item[size:]
 	}
 	return ret
 }
@@ -500,13 +502,9 @@ func StringToFirstLower(val string) string {
 	if 0 == len(val) {
 		return val
 	}
-	temp := strings.Split(val, "_")
-	var ret string
-	for _, item := range temp {
-		ret += strings.ToUpper(item[:1])
-		ret += item[1:]
-	}
-	return strings.ToLower(ret[:1]) + ret[1:]
+	ret := StringToHumpName(val)
+	_, size := utf8.DecodeRuneInString(ret)
+	return strings.ToLower(ret[:size]) + ret[size:]
 }
 
 // StringToUnderlineName 下划线
-- 
2.43.0


From 0aa364adde693e709899a5faf17d438600d6f457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 12/91] fix: resolve input and import paths independently of
 the current directory

A bare file name lost its first character, a file reached by two spellings of
its path was read twice, and an absolute import was joined to the importer's
directory.
---
 pkg/build/build.go      | 7 +++++--
 pkg/parser/interface.go | 7 ++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 216cde9..8e4bb60 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -112,9 +112,12 @@ func NewBuilder(build Function, param *Param) *Builder {
 }
 
 func Build(out string, in string, typ string, pack string) error {
-	in = filepath.Clean(in)
+	in, err := filepath.Abs(in)
+	if err != nil {
+		return err
+	}
 	path := filepath.Dir(in)
-	name := in[len(path)+1:]
+	name := filepath.Base(in)
 	reg, err := regexp.Compile(strings.ReplaceAll(name, "*", "(.*)"))
 	if err != nil {
 		return err
diff --git a/pkg/parser/interface.go b/pkg/parser/interface.go
index 1c4fe92..071a289 100644
--- a/pkg/parser/interface.go
+++ b/pkg/parser/interface.go
@@ -134,12 +134,13 @@ func parseDirFile(fset *token.FileSet, pkg *ast.Package, path string, name strin
 	for _, spec := range f.Imports {
 		imp := spec.Path.Value
 		imp = imp[1 : len(imp)-1]
-		if !("/" == imp || 0 != len(filepath.VolumeName(imp))) {
+		if !filepath.IsAbs(imp) {
 			imp = filepath.Join(path, imp)
-			spec.Path.Value = imp
 		}
+		imp = filepath.Clean(imp)
+		spec.Path.Value = imp
 		path := filepath.Dir(imp)
-		name := imp[len(path)+1:]
+		name := filepath.Base(imp)
 		err := parseDirFile(fset, pkg, path, name)
 		if err != nil {
 			switch err.(type) {
-- 
2.43.0


From c89ff5f8023af85108ecc66a08169cd41b54d0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 13/91] fix: match the input pattern against the whole name,
 '*' being its only wildcard

main.hbuf also selected domain.hbuf and main.hbuf.bak, and a name with a
regular expression character selected nothing.
---
 pkg/build/build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 8e4bb60..e510421 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -118,7 +118,7 @@ func Build(out string, in string, typ string, pack string) error {
 	}
 	path := filepath.Dir(in)
 	name := filepath.Base(in)
-	reg, err := regexp.Compile(strings.ReplaceAll(name, "*", "(.*)"))
+	reg, err := regexp.Compile("^" + strings.ReplaceAll(regexp.QuoteMeta(name), "\\*", "(.*)") + "$")
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From f24aa9ae15d644648fbcf95f8d474452715df70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 14/91] fix: do not read a directory as a schema when its name
 matches the pattern

---
 pkg/parser/interface.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/parser/interface.go b/pkg/parser/interface.go
index 071a289..4ec2799 100644
--- a/pkg/parser/interface.go
+++ b/pkg/parser/interface.go
@@ -100,6 +100,7 @@ func ParseDir(fset *token.FileSet, pkg *ast.Package, path string, reg *regexp.Re
 			if err != nil {
 				return err
 			}
+			continue
 		}
 		if !reg.MatchString(item.Name()) {
 			continue
-- 
2.43.0


From cf8c80f7d5dd43c33eccc0d8f189b21f73dee398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 15/91] fix: exit with a failure status when the build fails

---
 cmd/main.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/main.go b/cmd/main.go
index 189ea4b..1c81fa2 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -9,6 +9,7 @@ import (
 	"hbuf/pkg/java"
 	ts "hbuf/pkg/typescript"
 	"log"
+	"os"
 )
 
 var version = "0.0.1"
@@ -46,12 +47,12 @@ func main() {
 	}
 	if !build.CheckType(*typ) {
 		fmt.Println(fmt.Errorf("Type error : %s", *typ))
-		return
+		os.Exit(1)
 	}
 
 	err := build.Build(*out, *in, *typ, *pack)
 	if err != nil {
 		fmt.Println(fmt.Errorf("Build error: %s", err))
-		return
+		os.Exit(1)
 	}
 }
-- 
2.43.0


From 4e1868403b85f0c4f1140c51941f9507961e654a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:59 +0000
Subject: [PATCH 16/91] fix: do not crash on a schema whose name does not end
 in .hbuf

---
 pkg/dart/dart.go             | 5 +++--
 pkg/golang/gloang.go         | 2 +-
 pkg/java/java.go             | 5 +++--
 pkg/typescript/typescript.go | 5 +++--
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/pkg/dart/dart.go b/pkg/dart/dart.go
index 62b402b..c55a387 100644
--- a/pkg/dart/dart.go
+++ b/pkg/dart/dart.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path/filepath"
 	"sort"
+	"strings"
 )
 
 var _types = map[build.BaseType]string{
@@ -65,7 +66,7 @@ func Build(file *ast.File, fset *token.FileSet, param *build.Param) error {
 	}
 
 	dir, name := filepath.Split(param.GetOut())
-	name = name[:len(name)-len(".hbuf")]
+	name = strings.TrimSuffix(name, ".hbuf")
 
 	err = os.MkdirAll(dir, os.ModePerm)
 	if err != nil {
@@ -261,7 +262,7 @@ func (b *Builder) getPackage(dst *build.Writer, expr ast.Expr, s string) string
 	}
 
 	_, name := filepath.Split(file.(*ast.File).Path)
-	name = name[:len(name)-len(".hbuf")]
+	name = strings.TrimSuffix(name, ".hbuf")
 	if 0 < len(s) {
 		name = name + "." + s + ".dart"
 	} else {
diff --git a/pkg/golang/gloang.go b/pkg/golang/gloang.go
index b67ee5b..8779ea1 100644
--- a/pkg/golang/gloang.go
+++ b/pkg/golang/gloang.go
@@ -94,7 +94,7 @@ func Build(file *ast.File, fSet *token.FileSet, param *build.Param) error {
 	}
 
 	dir, name := filepath.Split(param.GetOut())
-	name = name[:len(name)-len(".hbuf")]
+	name = strings.TrimSuffix(name, ".hbuf")
 	packs := strings.Split(dst.packages, ".")
 	for _, pack := range packs {
 		dir = filepath.Join(dir, pack)
diff --git a/pkg/java/java.go b/pkg/java/java.go
index 180c4fa..6a91357 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path/filepath"
 	"sort"
+	"strings"
 )
 
 var _types = map[build.BaseType]string{
@@ -73,7 +74,7 @@ func Build(file *ast.File, fset *token.FileSet, param *build.Param) error {
 	}
 
 	dir, name := filepath.Split(param.GetOut())
-	name = build.StringToHumpName(name[:len(name)-len(".hbuf")])
+	name = build.StringToHumpName(strings.TrimSuffix(name, ".hbuf"))
 
 	err = os.MkdirAll(dir, os.ModePerm)
 	if err != nil {
@@ -269,7 +270,7 @@ func (b *Builder) getPackage(dst *build.Writer, expr ast.Expr, s string) string
 	}
 
 	_, name := filepath.Split(file.(*ast.File).Path)
-	name = dst.Packages + "." + build.StringToHumpName(name[:len(name)-len(".hbuf")])
+	name = dst.Packages + "." + build.StringToHumpName(strings.TrimSuffix(name, ".hbuf"))
 	if 0 < len(s) {
 		name = name + "." + s + ".dart"
 	} else {
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index ecfd7a7..d001d9a 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -9,6 +9,7 @@ import (
 	"path/filepath"
 	"sort"
 	"strconv"
+	"strings"
 )
 
 var _types = map[build.BaseType]string{
@@ -77,7 +78,7 @@ func Build(file *ast.File, fSet *token.FileSet, param *build.Param) error {
 	}
 
 	dir, name := filepath.Split(param.GetOut())
-	name = name[:len(name)-len(".hbuf")]
+	name = strings.TrimSuffix(name, ".hbuf")
 
 	err = os.MkdirAll(dir, os.ModePerm)
 	if err != nil {
@@ -305,7 +306,7 @@ func (b *Builder) getPackage(dst *build.Writer, expr ast.Expr, s string) string
 	}
 
 	_, name := filepath.Split(file.(*ast.File).Path)
-	name = name[:len(name)-len(".hbuf")]
+	name = strings.TrimSuffix(name, ".hbuf")
 	if 0 < len(s) {
 		name = name + "." + s
 	} else {
-- 
2.43.0


From 84694b1bff450fa8771db3a0899419f22d46ac4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 17/91] fix: fail when the input pattern matches no file

---
 pkg/build/build.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index e510421..fd79998 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -1,6 +1,7 @@
 package build
 
 import (
+	"errors"
 	"hbuf/pkg/ast"
 	"hbuf/pkg/parser"
 	"hbuf/pkg/scanner"
@@ -131,6 +132,9 @@ func Build(out string, in string, typ string, pack string) error {
 	if err != nil {
 		return err
 	}
+	if 0 == len(build.pkg.Files) {
+		return errors.New("Input file not found: " + in)
+	}
 	err = build.checkFiles()
 	if err != nil {
 		return err
-- 
2.43.0


From 56df96b91b179a55d9d7d41da7029ac549555d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 18/91] fix: compare ids by value when looking for duplicates

---
 pkg/build/build.go | 11 +++++++++++
 pkg/build/data.go  |  2 +-
 pkg/build/enum.go  |  2 +-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index fd79998..ab0e723 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -6,6 +6,7 @@ import (
 	"hbuf/pkg/parser"
 	"hbuf/pkg/scanner"
 	"hbuf/pkg/token"
+	"math/big"
 	"path/filepath"
 	"regexp"
 	"sort"
@@ -342,6 +343,16 @@ func (b *Builder) checkDataMapKey(file *ast.File, varType *ast.VarType) error {
 	}
 }
 
+// sameId says whether two id literals stand for the same number, 16 and 0x10 say.
+func sameId(a, b string) bool {
+	x, ok := new(big.Int).SetString(a, 0)
+	if !ok {
+		return a == b
+	}
+	y, ok := new(big.Int).SetString(b, 0)
+	return ok && x.Cmp(y) == 0
+}
+
 func (b *Builder) checkKeyValue(kvs []*ast.KeyValue) error {
 	if nil == kvs {
 		return nil
diff --git a/pkg/build/data.go b/pkg/build/data.go
index 83836e2..509b621 100644
--- a/pkg/build/data.go
+++ b/pkg/build/data.go
@@ -224,7 +224,7 @@ func (b *Builder) checkDataDuplicateItem(data *ast.DataType, index int, name str
 func (b *Builder) checkDataDuplicateValue(data *ast.DataType, index int, id string) bool {
 	for i := index + 1; i < len(data.Fields.List); i++ {
 		s := data.Fields.List[i]
-		if s.Id.Value == id {
+		if sameId(s.Id.Value, id) {
 			return true
 		}
 	}
diff --git a/pkg/build/enum.go b/pkg/build/enum.go
index a24da0e..bc01955 100644
--- a/pkg/build/enum.go
+++ b/pkg/build/enum.go
@@ -75,7 +75,7 @@ func (b *Builder) checkEnumDuplicateItem(enum *ast.EnumType, index int, name str
 func (b *Builder) checkEnumDuplicateValue(enum *ast.EnumType, index int, id string) bool {
 	for i := index + 1; i < len(enum.Items); i++ {
 		s := enum.Items[i]
-		if s.Id.Value == id {
+		if sameId(s.Id.Value, id) {
 			return true
 		}
 	}
-- 
2.43.0


From 76d3d556560f4c7be259044582677cc78c8907ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 19/91] fix: report '.' before a digit as illegal instead of
 looping forever

There are no fractions in the language, and the number scanner did not
consume the '.'.
---
 pkg/scanner/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/scanner/scanner.go b/pkg/scanner/scanner.go
index d6c8434..72a5912 100644
--- a/pkg/scanner/scanner.go
+++ b/pkg/scanner/scanner.go
@@ -708,7 +708,7 @@ scanAgain:
 			insertSemi = true
 			tok = token.IDENT
 		}
-	case isDecimal(ch) || ch == '.' && isDecimal(rune(s.peek())):
+	case isDecimal(ch):
 		insertSemi = true
 		tok, lit = s.scanNumber()
 	default:
-- 
2.43.0


From 3d9d0f58b07d29a9c71482e8235ddba232eb780a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 20/91] fix: keep a documentation comment of several lines
 inside the generated comment

Only its first line got a comment marker, so the rest became code.
---
 pkg/ast/ast.go           | 10 ++++++++++
 pkg/dart/data.go         |  6 +++---
 pkg/dart/enum.go         |  4 ++--
 pkg/dart/server.go       |  4 ++--
 pkg/golang/data.go       |  8 ++++----
 pkg/golang/enum.go       |  4 ++--
 pkg/golang/server.go     | 10 +++++-----
 pkg/java/data.go         |  6 +++---
 pkg/java/enum.go         |  4 ++--
 pkg/java/server.go       |  4 ++--
 pkg/typescript/data.go   |  4 ++--
 pkg/typescript/enum.go   |  4 ++--
 pkg/typescript/server.go |  6 +++---
 13 files changed, 42 insertions(+), 32 deletions(-)

diff --git a/pkg/ast/ast.go b/pkg/ast/ast.go
index bd3ed75..0983ea0 100644
--- a/pkg/ast/ast.go
+++ b/pkg/ast/ast.go
@@ -103,6 +103,16 @@ func (g *CommentGroup) Text() string {
 	return strings.Join(lines, "\n")
 }
 
+// Line returns the text of the comments as a single line, for use in a line
+// comment. Like Text it ends in a line feed unless it is empty.
+func (g *CommentGroup) Line() string {
+	text := strings.TrimSuffix(g.Text(), "\n")
+	if len(text) == 0 {
+		return ""
+	}
+	return strings.ReplaceAll(text, "\n", " ") + "\n"
+}
+
 // isDirective reports whether c is a comment directive.
 func isDirective(c string) bool {
 	// "//line " is a line directive.
diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index 792e74a..e6c5e25 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -15,7 +15,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 }
 func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + typ.Doc.Line())
 	}
 	dst.Code("abstract class " + build.StringToHumpName(typ.Name.Name) + " implements Data")
 	if nil != typ.Extends {
@@ -24,7 +24,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	dst.Code("{\n")
 	for _, field := range typ.Fields.List {
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("\t/// Get " + field.Doc.Text())
+			dst.Code("\t/// Get " + field.Doc.Line())
 		}
 		isSuper := build.CheckSuperField(field.Name.Name, typ)
 		if isSuper {
@@ -36,7 +36,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 		dst.Code(";\n\n")
 
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("\t/// Set " + field.Doc.Text())
+			dst.Code("\t/// Set " + field.Doc.Line())
 		}
 		if isSuper {
 			dst.Code("\t@override\n")
diff --git a/pkg/dart/enum.go b/pkg/dart/enum.go
index 9b1fec7..f0c37c4 100644
--- a/pkg/dart/enum.go
+++ b/pkg/dart/enum.go
@@ -18,7 +18,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 		b.getPackage(dst, typ.Name, "ui")
 	}
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + typ.Doc.Line())
 	}
 	dst.Code("class " + enumName)
 	dst.Code("{\n")
@@ -57,7 +57,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 
 	for _, item := range typ.Items {
 		if nil != item.Doc && 0 < len(item.Doc.Text()) {
-			dst.Code("\t///" + item.Doc.Text())
+			dst.Code("\t///" + item.Doc.Line())
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
 		dst.Code("\tstatic final " + itemName + " = " + enumName + "._(" + item.Id.Value + ", '" + build.StringToHumpName(item.Name.Name) + "'")
diff --git a/pkg/dart/server.go b/pkg/dart/server.go
index 87cba6a..74e1bb4 100644
--- a/pkg/dart/server.go
+++ b/pkg/dart/server.go
@@ -18,7 +18,7 @@ func (b *Builder) printServerCode(dst *build.Writer, typ *ast.ServerType) {
 
 func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + typ.Doc.Line())
 	}
 	dst.Code("abstract class " + build.StringToHumpName(typ.Name.Name))
 	if nil != typ.Extends {
@@ -28,7 +28,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("{\n")
 	for _, method := range typ.Methods {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("///" + method.Doc.Text())
+			dst.Code("///" + method.Doc.Line())
 		}
 		if build.CheckSuperMethod(method.Name.Name, typ) {
 			dst.Code("  @override\n")
diff --git a/pkg/golang/data.go b/pkg/golang/data.go
index ce3cf51..d2ccb8d 100644
--- a/pkg/golang/data.go
+++ b/pkg/golang/data.go
@@ -17,7 +17,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 	dst.Import("encoding/json", "")
 	name := build.StringToHumpName(typ.Name.Name)
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("// " + name + " " + typ.Doc.Text())
+		dst.Code("// " + name + " " + typ.Doc.Line())
 	}
 	dst.Code("type " + name + " struct")
 	dst.Code(" {\n")
@@ -40,7 +40,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 		}
 
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			fields[i].comment = field.Doc.Text()
+			fields[i].comment = field.Doc.Line()
 		}
 
 		length = len(fields[i].name)
@@ -78,7 +78,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 
 	for _, field := range typ.Fields.List {
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("// Get" + build.StringToHumpName(field.Name.Name) + " Get " + field.Doc.Text())
+			dst.Code("// Get" + build.StringToHumpName(field.Name.Name) + " Get " + field.Doc.Line())
 		}
 		dst.Code("func (g *" + build.StringToHumpName(typ.Name.Name) + ") Get" + build.StringToHumpName(field.Name.Name) + "() ")
 		b.printType(dst, field.Type, false)
@@ -96,7 +96,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 		dst.Code("}\n\n")
 
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("// Set" + build.StringToHumpName(field.Name.Name) + " Set " + field.Doc.Text())
+			dst.Code("// Set" + build.StringToHumpName(field.Name.Name) + " Set " + field.Doc.Line())
 		}
 		dst.Code("func (g *" + build.StringToHumpName(typ.Name.Name) + ") Set" + build.StringToHumpName(field.Name.Name) + "(val ")
 		b.printType(dst, field.Type, false)
diff --git a/pkg/golang/enum.go b/pkg/golang/enum.go
index 2611abc..1b07061 100644
--- a/pkg/golang/enum.go
+++ b/pkg/golang/enum.go
@@ -9,7 +9,7 @@ import (
 func printEnumCode(dst *build.Writer, typ *ast.EnumType) {
 	name := build.StringToHumpName(typ.Name.Name)
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("// " + name + " " + typ.Doc.Text())
+		dst.Code("// " + name + " " + typ.Doc.Line())
 	}
 	maxLen := 0
 	dst.Code("type " + name + " int\n\n")
@@ -20,7 +20,7 @@ func printEnumCode(dst *build.Writer, typ *ast.EnumType) {
 			maxLen = l
 		}
 		if nil != item.Doc && 0 < len(item.Doc.Text()) {
-			dst.Code("// " + name + itemName + " " + item.Doc.Text())
+			dst.Code("// " + name + itemName + " " + item.Doc.Line())
 		}
 		dst.Code("const " + name + itemName + " " + name + " = " + item.Id.Value + "\n\n")
 	}
diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 8c5df35..d5aad5b 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -25,7 +25,7 @@ func (b *Builder) printServerCode(dst *build.Writer, typ *ast.ServerType) error
 func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	serverName := build.StringToHumpName(typ.Name.Name)
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("// " + build.StringToHumpName(serverName) + " " + typ.Doc.Text())
+		dst.Code("// " + build.StringToHumpName(serverName) + " " + typ.Doc.Line())
 	}
 	dst.Code("type " + serverName)
 	dst.Code(" interface {\n")
@@ -39,7 +39,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 		}
 		isFast = false
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("\t//" + build.StringToHumpName(method.Name.Name) + " " + method.Doc.Text())
+			dst.Code("\t//" + build.StringToHumpName(method.Name.Name) + " " + method.Doc.Line())
 		}
 		isMethod := method.Result.Type().(*ast.Ident).Name == "void"
 
@@ -63,7 +63,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) error {
 	serverName := build.StringToHumpName(typ.Name.Name)
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("// " + build.StringToHumpName(serverName) + " " + typ.Doc.Text())
+		dst.Code("// " + build.StringToHumpName(serverName) + " " + typ.Doc.Line())
 	}
 	dst.Code("type Default" + serverName)
 	dst.Code(" struct {\n")
@@ -76,7 +76,7 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 
 	for _, method := range typ.Methods {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("// " + build.StringToHumpName(method.Name.Name) + " " + method.Doc.Text())
+			dst.Code("// " + build.StringToHumpName(method.Name.Name) + " " + method.Doc.Line())
 		}
 		isSub := method.Result.Type().(*ast.Ident).Name == "void"
 
@@ -179,7 +179,7 @@ func (b *Builder) printClient(dst *build.Writer, typ *ast.ServerType) {
 	name := build.StringToUnderlineName(typ.Name.Name)
 	err := build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("// " + build.StringToHumpName(method.Name.Name) + " " + method.Doc.Text())
+			dst.Code("// " + build.StringToHumpName(method.Name.Name) + " " + method.Doc.Line())
 		}
 		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/hbuf", "")
 
diff --git a/pkg/java/data.go b/pkg/java/data.go
index 2ca61f9..10b5e5c 100644
--- a/pkg/java/data.go
+++ b/pkg/java/data.go
@@ -14,7 +14,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 
 func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + typ.Doc.Line())
 	}
 	dst.Code("\tinterface " + build.StringToHumpName(typ.Name.Name) + " extends Data")
 	if nil != typ.Extends {
@@ -23,7 +23,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	dst.Code(" {\n")
 	for _, field := range typ.Fields.List {
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("\t/// Get " + field.Doc.Text())
+			dst.Code("\t/// Get " + field.Doc.Line())
 		}
 		isSuper := build.CheckSuperField(field.Name.Name, typ)
 		if isSuper {
@@ -35,7 +35,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 		dst.Code("();\n\n")
 
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("\t/// Set " + field.Doc.Text())
+			dst.Code("\t/// Set " + field.Doc.Line())
 		}
 		if isSuper {
 			dst.Code("\t@override\n")
diff --git a/pkg/java/enum.go b/pkg/java/enum.go
index 09a1027..ed788a3 100644
--- a/pkg/java/enum.go
+++ b/pkg/java/enum.go
@@ -16,7 +16,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 		b.getPackage(dst, typ.Name, "ui")
 	}
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + typ.Doc.Line())
 	}
 	dst.Code("\tclass " + enumName)
 	dst.Code("\t{\n")
@@ -61,7 +61,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 
 	for _, item := range typ.Items {
 		if nil != item.Doc && 0 < len(item.Doc.Text()) {
-			dst.Code("///" + item.Doc.Text())
+			dst.Code("///" + item.Doc.Line())
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
 		dst.Code("\t\tstatic final " + enumName + " " + itemName + " = new " + enumName + "(" + item.Id.Value + ", \"" + itemName + "\"")
diff --git a/pkg/java/server.go b/pkg/java/server.go
index 38627c8..acc55dc 100644
--- a/pkg/java/server.go
+++ b/pkg/java/server.go
@@ -18,7 +18,7 @@ func (b *Builder) printServerCode(dst *build.Writer, typ *ast.ServerType) {
 
 func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + typ.Doc.Line())
 	}
 	dst.Code("\tinterface " + build.StringToHumpName(typ.Name.Name))
 	if nil != typ.Extends {
@@ -28,7 +28,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("{\n")
 	for _, method := range typ.Methods {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("///" + method.Doc.Text())
+			dst.Code("///" + method.Doc.Line())
 		}
 		if build.CheckSuperMethod(method.Name.Name, typ) {
 			dst.Code("\t@override\n")
diff --git a/pkg/typescript/data.go b/pkg/typescript/data.go
index 58c91d5..883cd8b 100644
--- a/pkg/typescript/data.go
+++ b/pkg/typescript/data.go
@@ -13,7 +13,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 
 func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + typ.Doc.Line())
 	}
 	dst.Code("export class " + build.StringToHumpName(typ.Name.Name) + " implements h.Data")
 	if nil != typ.Extends {
@@ -22,7 +22,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	dst.Code(" {\n")
 	err := build.EnumField(typ, func(field *ast.Field, data *ast.DataType) error {
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("\t///" + field.Doc.Text())
+			dst.Code("\t///" + field.Doc.Line())
 		}
 		dst.Code("\t")
 		dst.Code(build.StringToFirstLower(field.Name.Name) + ": ")
diff --git a/pkg/typescript/enum.go b/pkg/typescript/enum.go
index f3134ae..6f95cd6 100644
--- a/pkg/typescript/enum.go
+++ b/pkg/typescript/enum.go
@@ -12,7 +12,7 @@ func (b *Builder) printEnumCode(dst *build.Writer, typ *ast.EnumType) {
 func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	enumName := build.StringToHumpName(typ.Name.Name)
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + typ.Doc.Line())
 	}
 	dst.Code("export class " + enumName)
 	dst.Code("{\n")
@@ -44,7 +44,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 
 	for _, item := range typ.Items {
 		if nil != item.Doc && 0 < len(item.Doc.Text()) {
-			dst.Code("\t///" + item.Doc.Text())
+			dst.Code("\t///" + item.Doc.Line())
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
 		dst.Code("\tpublic static readonly " + itemName + " = new " + enumName + "(")
diff --git a/pkg/typescript/server.go b/pkg/typescript/server.go
index d41599b..63257e0 100644
--- a/pkg/typescript/server.go
+++ b/pkg/typescript/server.go
@@ -16,7 +16,7 @@ func (b *Builder) printServerCode(dst *build.Writer, typ *ast.ServerType) {
 
 func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Text())
+		dst.Code("///" + typ.Doc.Line())
 	}
 	dst.Code("export interface " + build.StringToHumpName(typ.Name.Name))
 	if nil != typ.Extends {
@@ -26,7 +26,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code(" {\n")
 	for _, method := range typ.Methods {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("\t//" + method.Doc.Text())
+			dst.Code("\t//" + method.Doc.Line())
 		}
 		isMethod := method.Result.Type().(*ast.Ident).Name == "void"
 
@@ -69,7 +69,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 
 	_ = build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("\t//" + method.Doc.Text())
+			dst.Code("\t//" + method.Doc.Line())
 		}
 		isMethod := method.Result.Type().(*ast.Ident).Name == "void"
 
-- 
2.43.0


From 8144507e307234dc8048c91e6714defc46ce6f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 21/91] fix: refer to a type by the name its declaration gets

---
 pkg/dart/dart.go             | 2 +-
 pkg/dart/data.go             | 8 ++++----
 pkg/dart/ui.go               | 2 +-
 pkg/golang/data.go           | 2 +-
 pkg/golang/gloang.go         | 2 +-
 pkg/golang/server.go         | 2 +-
 pkg/java/java.go             | 2 +-
 pkg/typescript/data.go       | 8 ++++----
 pkg/typescript/typescript.go | 6 +++---
 pkg/typescript/ui.go         | 2 +-
 10 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/pkg/dart/dart.go b/pkg/dart/dart.go
index c55a387..75f73bb 100644
--- a/pkg/dart/dart.go
+++ b/pkg/dart/dart.go
@@ -216,7 +216,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool) {
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
 			b.getPackage(dst, expr, "")
-			dst.Code(expr.(*ast.Ident).Name)
+			dst.Code(build.StringToHumpName(expr.(*ast.Ident).Name))
 		} else {
 			if build.Decimal == build.BaseType((expr.(*ast.Ident).Name)) {
 				dst.Import("package:decimal/decimal.dart", "")
diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index e6c5e25..bd07b13 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -408,15 +408,15 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 		if nil != t.Obj {
 			if ast.Enum == t.Obj.Kind {
 				if empty {
-					dst.Code("null == " + name + " ? null :" + v + " is num ? " + t.Name + ".valueOf(" + v + ".toInt()) : null == num.tryParse(" + v + ".toString()) ? null : " + t.Name + ".valueOf(num.tryParse(" + v + ".toString())!.toInt())")
+					dst.Code("null == " + name + " ? null :" + v + " is num ? " + build.StringToHumpName(t.Name) + ".valueOf(" + v + ".toInt()) : null == num.tryParse(" + v + ".toString()) ? null : " + build.StringToHumpName(t.Name) + ".valueOf(num.tryParse(" + v + ".toString())!.toInt())")
 				} else {
-					dst.Code("null == " + name + " ? " + t.Name + ".valueOf(0) : " + t.Name + ".valueOf(" + v + " is num ? " + v + ".toInt() : num.tryParse(" + v + ".toString())?.toInt() ?? 0)")
+					dst.Code("null == " + name + " ? " + build.StringToHumpName(t.Name) + ".valueOf(0) : " + build.StringToHumpName(t.Name) + ".valueOf(" + v + " is num ? " + v + ".toInt() : num.tryParse(" + v + ".toString())?.toInt() ?? 0)")
 				}
 			} else if ast.Data == t.Obj.Kind {
 				if empty {
-					dst.Code("null == " + name + " ? null : " + t.Name + ".fromMap(" + v + ")")
+					dst.Code("null == " + name + " ? null : " + build.StringToHumpName(t.Name) + ".fromMap(" + v + ")")
 				} else {
-					dst.Code("null == " + name + " ? " + t.Name + ".fromMap({}) : " + t.Name + ".fromMap(" + v + ")")
+					dst.Code("null == " + name + " ? " + build.StringToHumpName(t.Name) + ".fromMap({}) : " + build.StringToHumpName(t.Name) + ".fromMap(" + v + ")")
 				}
 			} else {
 				dst.Code("map[\"" + name + "\"]")
diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index 87c6ec9..539247f 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -402,7 +402,7 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 	switch expr.(type) {
 	case *ast.EnumType:
 		t := expr.(*ast.EnumType)
-		dst.Code(t.Name.Name + ".nameOf(" + name + "!)")
+		dst.Code(build.StringToHumpName(t.Name.Name) + ".nameOf(" + name + "!)")
 	case *ast.Ident:
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
diff --git a/pkg/golang/data.go b/pkg/golang/data.go
index d2ccb8d..c3750bb 100644
--- a/pkg/golang/data.go
+++ b/pkg/golang/data.go
@@ -117,7 +117,7 @@ func (b *Builder) printDefault(dst *build.Writer, expr ast.Expr) {
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
 			pack := b.getPackage(dst, expr)
-			dst.Code(pack + (expr.(*ast.Ident)).Name)
+			dst.Code(pack + build.StringToHumpName((expr.(*ast.Ident)).Name))
 			if t.Obj.Kind == ast.Enum {
 				dst.Code("(0)")
 			} else {
diff --git a/pkg/golang/gloang.go b/pkg/golang/gloang.go
index 8779ea1..97ebf8c 100644
--- a/pkg/golang/gloang.go
+++ b/pkg/golang/gloang.go
@@ -240,7 +240,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, b2 bool) {
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
 			pack := b.getPackage(dst, expr)
-			dst.Code(pack + (expr.(*ast.Ident)).Name)
+			dst.Code(pack + build.StringToHumpName((expr.(*ast.Ident)).Name))
 		} else {
 			if build.Date == build.BaseType((expr.(*ast.Ident)).Name) {
 				dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/hbuf", "")
diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index d5aad5b..d5cf924 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -133,7 +133,7 @@ func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *bu
 		dst.Code("\terr := ")
 	}
 	dst.Code(pack)
-	dst.Code("Get").Code(bind.Server.Name.Name).Code("(ctx).").Code(bind.Method.Name.Name).Code("(ctx, &")
+	dst.Code("Get").Code(build.StringToHumpName(bind.Server.Name.Name)).Code("(ctx).").Code(build.StringToHumpName(bind.Method.Name.Name)).Code("(ctx, &")
 	dst.Code("req.")
 	b.printType(dst, bind.Method.Param.Type(), true)
 	dst.Code(")\n")
diff --git a/pkg/java/java.go b/pkg/java/java.go
index 6a91357..7ddfdd5 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -225,7 +225,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool) {
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
 			b.getPackage(dst, expr, "")
-			dst.Code(expr.(*ast.Ident).Name)
+			dst.Code(build.StringToHumpName(expr.(*ast.Ident).Name))
 		} else {
 			if build.Decimal == build.BaseType((expr.(*ast.Ident).Name)) {
 				dst.Import("java.math.BigDecimal", "")
diff --git a/pkg/typescript/data.go b/pkg/typescript/data.go
index 883cd8b..19e1257 100644
--- a/pkg/typescript/data.go
+++ b/pkg/typescript/data.go
@@ -198,16 +198,16 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 					}
 				} else {
 					if empty {
-						dst.Code("null == " + name + " ? null : " + p + "." + t.Name + ".valueOf(Number(" + v + ").valueOf())")
+						dst.Code("null == " + name + " ? null : " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(Number(" + v + ").valueOf())")
 					} else {
-						dst.Code("null == " + name + " ? " + p + "." + t.Name + ".valueOf(0) : " + p + "." + t.Name + ".valueOf(Number(" + v + ").valueOf())")
+						dst.Code("null == " + name + " ? " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(0) : " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(Number(" + v + ").valueOf())")
 					}
 				}
 			} else if ast.Data == t.Obj.Kind {
 				if empty {
-					dst.Code("null == " + name + " ? null : " + p + "." + t.Name + ".fromJson(" + v + ")")
+					dst.Code("null == " + name + " ? null : " + p + "." + build.StringToHumpName(t.Name) + ".fromJson(" + v + ")")
 				} else {
-					dst.Code("null == " + name + " ? " + p + "." + t.Name + ".fromJson({}) : " + p + "." + t.Name + ".fromJson(" + v + ")")
+					dst.Code("null == " + name + " ? " + p + "." + build.StringToHumpName(t.Name) + ".fromJson({}) : " + p + "." + build.StringToHumpName(t.Name) + ".fromJson(" + v + ")")
 				}
 			} else {
 				dst.Code("map[\"" + name + "\"]")
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index d001d9a..4a63b82 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -246,7 +246,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool, isR
 				pkg := b.getPackage(dst, expr, "")
 				dst.Code(pkg)
 				dst.Code(".")
-				dst.Code(expr.(*ast.Ident).Name)
+				dst.Code(build.StringToHumpName(expr.(*ast.Ident).Name))
 			}
 		} else {
 			if isRecordKey {
@@ -333,14 +333,14 @@ func (b *Builder) printDefault(dst *build.Writer, expr ast.Expr, notEmpty bool)
 				pkg := b.getPackage(dst, expr, "")
 				dst.Code(pkg)
 				dst.Code(".")
-				dst.Code(expr.(*ast.Ident).Name)
+				dst.Code(build.StringToHumpName(expr.(*ast.Ident).Name))
 				dst.Code(".valueOf(0)")
 			} else {
 				dst.Code("new ")
 				pkg := b.getPackage(dst, expr, "")
 				dst.Code(pkg)
 				dst.Code(".")
-				dst.Code(expr.(*ast.Ident).Name)
+				dst.Code(build.StringToHumpName(expr.(*ast.Ident).Name))
 				dst.Code("()")
 			}
 		} else {
diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index 024327a..85ba27d 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -315,7 +315,7 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 			dst.Code("(").Code(name).Code(" == null || ").Code(name).Code(".length == 0)").Code(" ? null : ")
 		}
 		p := b.getPackage(dst, t.Name, "")
-		dst.Code("(").Code(p).Code(".").Code(t.Name.Name).Code(".nameOf(").Code(name).Code("))")
+		dst.Code("(").Code(p).Code(".").Code(build.StringToHumpName(t.Name.Name)).Code(".nameOf(").Code(name).Code("))")
 	case *ast.Ident:
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
-- 
2.43.0


From 5fbcf88a9745cc8edb0cb9d3fbb70a80ee28f2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:02 +0000
Subject: [PATCH 22/91] fix: resolve the formats of an inherited member in the
 file that declares it

---
 pkg/build/build.go       | 5 +++++
 pkg/dart/ui.go           | 2 +-
 pkg/dart/verify.go       | 2 +-
 pkg/golang/server.go     | 3 ++-
 pkg/golang/verify.go     | 2 +-
 pkg/typescript/verify.go | 2 +-
 6 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index ab0e723..e42c3c4 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -446,6 +446,11 @@ func EnumField(typ *ast.DataType, call func(field *ast.Field, data *ast.DataType
 	return enumField(typ, fields, call)
 }
 
+// DataFile returns the file that declares data, the one whose names its tags refer to.
+func DataFile(data *ast.DataType) *ast.File {
+	return data.Name.Obj.Data.(*ast.File)
+}
+
 func CheckSuperField(name string, typ *ast.DataType) bool {
 	for _, extend := range typ.Extends {
 		types := extend.Name.Obj.Decl.(*ast.TypeSpec)
diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index 539247f..b187405 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -509,7 +509,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 		isArray := build.IsArray(field.Type)
 		isNil := build.IsNil(field.Type)
 
-		verify, err := build.GetVerify(field.Tags, dst.File, b.GetDataType)
+		verify, err := build.GetVerify(field.Tags, build.DataFile(data), b.GetDataType)
 		if err != nil {
 			return err
 		}
diff --git a/pkg/dart/verify.go b/pkg/dart/verify.go
index fb72025..7f01ca3 100644
--- a/pkg/dart/verify.go
+++ b/pkg/dart/verify.go
@@ -31,7 +31,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 	dName := build.StringToHumpName(data.Name.Name)
 	err := build.EnumField(data, func(field *ast.Field, data *ast.DataType) error {
 		fName := build.StringToHumpName(field.Name.Name)
-		verify, err := build.GetVerify(field.Tags, dst.File, b.GetDataType)
+		verify, err := build.GetVerify(field.Tags, build.DataFile(data), b.GetDataType)
 		if err != nil {
 			return err
 		}
diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index d5cf924..5322b45 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -117,7 +117,8 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 }
 
 func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *build.Binding, isSub bool) error {
-	verify, err := build.GetVerify(method.Param.Type().(*ast.Ident).Obj.Decl.(*ast.TypeSpec).Type.(*ast.DataType).Tags, dst.File, b.GetDataType)
+	param := method.Param.Type().(*ast.Ident).Obj.Decl.(*ast.TypeSpec).Type.(*ast.DataType)
+	verify, err := build.GetVerify(param.Tags, build.DataFile(param), b.GetDataType)
 	if err != nil {
 		return err
 	}
diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index cec26bb..d417440 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -68,7 +68,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 	err := build.EnumField(data, func(field *ast.Field, data *ast.DataType) error {
 		fName := build.StringToHumpName(field.Name.Name)
 
-		verify, err := build.GetVerify(field.Tags, dst.File, b.GetDataType)
+		verify, err := build.GetVerify(field.Tags, build.DataFile(data), b.GetDataType)
 		if err != nil {
 			return err
 		}
diff --git a/pkg/typescript/verify.go b/pkg/typescript/verify.go
index 655a64b..fd244be 100644
--- a/pkg/typescript/verify.go
+++ b/pkg/typescript/verify.go
@@ -29,7 +29,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 	dName := build.StringToHumpName(data.Name.Name)
 	err := build.EnumField(data, func(field *ast.Field, data *ast.DataType) error {
 		fName := build.StringToHumpName(field.Name.Name)
-		verify, err := build.GetVerify(field.Tags, dst.File, b.GetDataType)
+		verify, err := build.GetVerify(field.Tags, build.DataFile(data), b.GetDataType)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 07ee354d4b9935c11fcbb0778e27b38d01f66fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:29 +0000
Subject: [PATCH 23/91] fix: check the formats of verify tags before generating
 anything

---
 pkg/build/data.go   | 4 ++++
 pkg/build/verify.go | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/build/data.go b/pkg/build/data.go
index 509b621..e1f052f 100644
--- a/pkg/build/data.go
+++ b/pkg/build/data.go
@@ -197,6 +197,10 @@ func (b *Builder) checkDataItem(file *ast.File, data *ast.DataType) error {
 				Msg: "Duplicate item: " + item.Id.Value,
 			}
 		}
+		_, err = GetVerify(item.Tags, file, b.GetDataType)
+		if err != nil {
+			return ErrorToFileError(err, b.fset)
+		}
 	}
 	return nil
 }
diff --git a/pkg/build/verify.go b/pkg/build/verify.go
index 662eecf..4206526 100644
--- a/pkg/build/verify.go
+++ b/pkg/build/verify.go
@@ -36,7 +36,7 @@ func GetVerify(tags []*ast.Tag, file *ast.File, getType func(file *ast.File, nam
 					return nil, NewError(i.Pos()+1, "Not set format")
 				}
 				temp := strings.Split(format, ".")
-				if 0 == len(temp) {
+				if 2 != len(temp) {
 					return nil, NewError(i.Pos()+1, "Not find enum field:"+format)
 				}
 
-- 
2.43.0


From 6e186aa2d6c2c8bd4cc80056d7c18beb1daae909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:43 +0000
Subject: [PATCH 24/91] fix: pass a Go client method's own parameter to the
 call

---
 pkg/golang/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 5322b45..295a595 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -206,7 +206,7 @@ func (b *Builder) printClient(dst *build.Writer, typ *ast.ServerType) {
 		} else {
 			dst.Code("\tret")
 		}
-		dst.Code(", err := r.client.Invoke(ctx, req, \"" + name + "/" + build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\", &rpc.ClientInvoke{\n")
+		dst.Code(", err := r.client.Invoke(ctx, " + build.StringToFirstLower(method.ParamName.Name) + ", \"" + name + "/" + build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\", &rpc.ClientInvoke{\n")
 		if !isMethod {
 			dst.Code("\t\tToData: func(buf []byte) (hbuf.Data, error) {\n")
 			dst.Code("\t\t\tvar req ")
-- 
2.43.0


From 43cc820bab055f373a6344f8c4578c2cc4022c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:45 +0000
Subject: [PATCH 25/91] fix: quote the values of method tags in generated Go

---
 pkg/golang/server.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 295a595..40b32c3 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -4,6 +4,7 @@ import (
 	"hbuf/pkg/ast"
 	"hbuf/pkg/build"
 	"sort"
+	"strconv"
 )
 
 func (b *Builder) printServerCode(dst *build.Writer, typ *ast.ServerType) error {
@@ -315,11 +316,11 @@ func (b *Builder) printServerRouter(dst *build.Writer, typ *ast.ServerType) {
 			for _, key := range keys {
 				values := (*au)[key]
 				if len(values) > 0 {
-					dst.Tab(5).Code("rpc.SetTag(ctx, \"").Code(key)
+					dst.Tab(5).Code("rpc.SetTag(ctx, ").Code(strconv.Quote(key))
 					for _, val := range values {
-						dst.Code("\", \"").Code(val)
+						dst.Code(", ").Code(strconv.Quote(val))
 					}
-					dst.Code("\")\n")
+					dst.Code(")\n")
 				}
 			}
 		}
-- 
2.43.0


From 056e2b0c9b0e8aa02797202f88f6c873bb512adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:32 +0000
Subject: [PATCH 26/91] fix: compare 64-bit integers in verify code as the
 integers they are

---
 pkg/golang/verify.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index d417440..defd920 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -141,13 +141,13 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
-							dst.Code(f.Min + " > i.Get" + fName + "().Val ")
+							dst.Code(f.Min + " > i.Get" + fName + "() ")
 						}
 						if 0 < len(f.Max) {
 							if 0 < len(f.Min) {
 								dst.Code("|| ")
 							}
-							dst.Code(f.Max + " < i.Get" + fName + "().Val ")
+							dst.Code(f.Max + " < i.Get" + fName + "() ")
 						}
 						dst.Code("{\n")
 						dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
-- 
2.43.0


From 79f4bc9a612478d7984db5f21c3ec61f11268af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:33 +0000
Subject: [PATCH 27/91] fix: check decimal bounds against the declared minimum
 and maximum

---
 pkg/golang/verify.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index defd920..fd9ff1c 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -181,15 +181,16 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				case build.Decimal:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
 						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
+						dst.Import("github.com/shopspring/decimal", "")
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
-							dst.Code("decimal.NewFromFloat(" + f.Min + ").GreaterThan(i.Get" + fName + "()) ")
+							dst.Code("decimal.RequireFromString(\"" + f.Min + "\").GreaterThan(i.Get" + fName + "()) ")
 						}
 						if 0 < len(f.Max) {
 							if 0 < len(f.Min) {
 								dst.Code("|| ")
 							}
-							dst.Code("decimal.NewFromFloat(" + f.Min + ").LessThan(i.Get" + fName + "()) ")
+							dst.Code("decimal.RequireFromString(\"" + f.Max + "\").LessThan(i.Get" + fName + "()) ")
 						}
 						dst.Code("{\n")
 						dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
-- 
2.43.0


From 73d842573c9351a2b77786a22fef71875aa95b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:35 +0000
Subject: [PATCH 28/91] fix: quote regular expressions in Go verify code and
 take the null rule from the first format there is

---
 pkg/golang/verify.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index fd9ff1c..5170ef3 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -79,7 +79,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 		dst.Code("func (i *" + dName + ") Verify" + fName + "(ctx context.Context) error {\n")
 
 		first := true
-		for i, val := range verify.GetFormat() {
+		for _, val := range verify.GetFormat() {
 			f := build.GetFormat(val.Item.Tags)
 			if nil == f {
 				continue
@@ -87,7 +87,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 
 			pack := b.getPackage(dst, val.Enum.Name) + build.StringToHumpName(val.Enum.Name.Name) + build.StringToHumpName(val.Item.Name.Name)
 
-			if build.IsNil(field.Type) && 0 == i {
+			if build.IsNil(field.Type) && first {
 				dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 				if !f.Null {
 					dst.Code("\tif nil == i." + fName)
@@ -107,6 +107,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 					dst.Code("\t}\n")
 				}
 			}
+			first = false
 			if build.IsEnum(field.Type) {
 				dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 				dst.Code("\tif 0 == len(i.Get" + fName + "().ToName()) {\n")
@@ -217,19 +218,12 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						dst.Code("\t}\n")
 					}
 					if 0 < len(f.Reg) {
-						dst.Code("\tmatch, err ")
-						if first {
-							dst.Code(":")
-						}
 						dst.Import("regexp", "")
-						dst.Code("= regexp.MatchString(\"" + f.Reg + "\", i.Get" + fName + "())\n")
-						dst.Code("\tif err != nil {\n")
+						dst.Code("\tif match, err := regexp.MatchString(" + strconv.Quote(f.Reg) + ", i.Get" + fName + "()); err != nil {\n")
 						dst.Code("\t\treturn err\n")
-						dst.Code("\t}\n")
-						dst.Code("\tif !match {\n")
+						dst.Code("\t} else if !match {\n")
 						dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
 						dst.Code("\t}\n")
-						first = false
 					}
 				}
 			}
-- 
2.43.0


From 932f48112b1a69234c3c3064e873d30f019ff261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:55 +0000
Subject: [PATCH 29/91] fix: import into Go verify files only what their code
 uses

---
 pkg/golang/verify.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index 5170ef3..91970de 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -85,11 +85,14 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				continue
 			}
 
-			pack := b.getPackage(dst, val.Enum.Name) + build.StringToHumpName(val.Enum.Name.Name) + build.StringToHumpName(val.Item.Name.Name)
+			used := build.NewWriter()
+			used.Packages = dst.Packages
+			pack := b.getPackage(used, val.Enum.Name) + build.StringToHumpName(val.Enum.Name.Name) + build.StringToHumpName(val.Item.Name.Name)
+			used.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 
 			if build.IsNil(field.Type) && first {
-				dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
 				if !f.Null {
+					dst.AddImports(used.GetImports())
 					dst.Code("\tif nil == i." + fName)
 					if build.GetBaseType(field.Type) == build.String {
 						dst.Code(" || len(i.Get" + fName + "()) == 0")
@@ -109,7 +112,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 			}
 			first = false
 			if build.IsEnum(field.Type) {
-				dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
+				dst.AddImports(used.GetImports())
 				dst.Code("\tif 0 == len(i.Get" + fName + "().ToName()) {\n")
 				dst.Code("\t\treturn &rpc.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
 				dst.Code("\t}\n")
@@ -122,7 +125,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				switch t {
 				case build.Int8, build.Int16, build.Int32, build.Uint8, build.Uint16, build.Uint32, build.Float, build.Double:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
-						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
+						dst.AddImports(used.GetImports())
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
 							dst.Code(f.Min + " > i.Get" + fName + "() ")
@@ -139,7 +142,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 					}
 				case build.Uint64, build.Int64:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
-						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
+						dst.AddImports(used.GetImports())
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
 							dst.Code(f.Min + " > i.Get" + fName + "() ")
@@ -156,7 +159,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 					}
 				case build.Date:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
-						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
+						dst.AddImports(used.GetImports())
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
 							parse, err := time.Parse("2006-01-02T15:04:05Z", f.Min)
@@ -181,7 +184,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 					}
 				case build.Decimal:
 					if 0 < len(f.Min) || 0 < len(f.Max) {
-						dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
+						dst.AddImports(used.GetImports())
 						dst.Import("github.com/shopspring/decimal", "")
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
@@ -198,9 +201,8 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						dst.Code("\t}\n")
 					}
 				case build.String:
-					dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/rpc", "")
-					pack := b.getPackage(dst, val.Enum.Name) + build.StringToHumpName(val.Enum.Name.Name) + build.StringToHumpName(val.Item.Name.Name)
 					if 0 < len(f.Min) || 0 < len(f.Max) {
+						dst.AddImports(used.GetImports())
 						dst.Code("\tif ")
 						if 0 < len(f.Min) {
 							dst.Import("unicode/utf8", "")
@@ -218,6 +220,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 						dst.Code("\t}\n")
 					}
 					if 0 < len(f.Reg) {
+						dst.AddImports(used.GetImports())
 						dst.Import("regexp", "")
 						dst.Code("\tif match, err := regexp.MatchString(" + strconv.Quote(f.Reg) + ", i.Get" + fName + "()); err != nil {\n")
 						dst.Code("\t\treturn err\n")
-- 
2.43.0


From be10c711063dff3e226018cc23536580c1e19b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:23 +0000
Subject: [PATCH 30/91] fix: give a Go package of several parts its last part
 as name and its whole path as import

---
 pkg/golang/gloang.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/golang/gloang.go b/pkg/golang/gloang.go
index 97ebf8c..f82563d 100644
--- a/pkg/golang/gloang.go
+++ b/pkg/golang/gloang.go
@@ -150,7 +150,7 @@ func (b *Builder) writerFile(data *build.Writer, packages string, out string, i
 		}
 	}(fc)
 
-	_, _ = fc.WriteString("package " + packages + "\n\n")
+	_, _ = fc.WriteString("package " + packages[strings.LastIndex(packages, ".")+1:] + "\n\n")
 
 	if 0 < len(data.GetImports()) {
 		_, _ = fc.WriteString("import (\n")
@@ -294,10 +294,9 @@ func (b *Builder) getPackage(dst *build.Writer, expr ast.Expr) string {
 	}
 
 	packs := strings.Split(pack, ".")
-	pack = packs[len(packs)-1]
 
-	dst.Import(b.packages+pack, "")
-	return pack + "."
+	dst.Import(b.packages+strings.Join(packs, "/"), "")
+	return packs[len(packs)-1] + "."
 }
 
 func (b *Builder) getFile(name *ast.Ident) *ast.File {
-- 
2.43.0


From c3723124da613c3dc3725a5d45d236e10489d6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:44 +0000
Subject: [PATCH 31/91] fix: hand a bound method on with its own names and
 types and check what it is bound to

---
 pkg/build/binding.go | 79 ++++++++++++++++++++++++++++++++++++++++++--
 pkg/build/build.go   |  6 +++-
 pkg/golang/server.go | 67 +++++++++++++++++++++++--------------
 pkg/golang/verify.go |  2 ++
 4 files changed, 126 insertions(+), 28 deletions(-)

diff --git a/pkg/build/binding.go b/pkg/build/binding.go
index 8fbfa79..d035591 100644
--- a/pkg/build/binding.go
+++ b/pkg/build/binding.go
@@ -25,8 +25,8 @@ func GetBinding(tags []*ast.Tag, file *ast.File, getType func(file *ast.File, na
 					return nil, NewError(item.Pos()+1, "Not set value")
 				}
 				temp := strings.Split(value, ".")
-				if 0 == len(temp) {
-					return nil, NewError(item.Pos()+1, "Not find server method:"+value)
+				if 2 != len(temp) {
+					return nil, NewError(item.Pos()+1, "Not find server method: "+value)
 				}
 
 				object := getType(file, temp[0])
@@ -45,7 +45,7 @@ func GetBinding(tags []*ast.Tag, file *ast.File, getType func(file *ast.File, na
 
 				ei := getServerMethod(st, temp[1])
 				if nil == ei {
-					return nil, NewError(item.Pos()+1, "Not a valid enumeration field: "+value)
+					return nil, NewError(item.Pos()+1, "Not find server method: "+value)
 				}
 
 				return &Binding{
@@ -66,3 +66,76 @@ func getServerMethod(em *ast.ServerType, name string) *ast.FuncType {
 	}
 	return nil
 }
+
+// MethodData is the data of a parameter or result of a method, nil for void.
+func MethodData(typ *ast.VarType) *ast.DataType {
+	ident := typ.Type().(*ast.Ident)
+	if nil == ident.Obj {
+		return nil
+	}
+	return ident.Obj.Decl.(*ast.TypeSpec).Type.(*ast.DataType)
+}
+
+// BasePath lists the names that lead from data to its direct or indirect base,
+// nil if it is no base of data.
+func BasePath(data *ast.DataType, base *ast.DataType) []*ast.Ident {
+	for _, extend := range data.Extends {
+		parent := extend.Name.Obj.Decl.(*ast.TypeSpec).Type.(*ast.DataType)
+		if parent == base {
+			return []*ast.Ident{extend.Name}
+		}
+		if path := BasePath(parent, base); nil != path {
+			return append([]*ast.Ident{extend.Name}, path...)
+		}
+	}
+	return nil
+}
+
+// checkBindings checks what methods are bound to. It needs the types of every
+// file to be resolved.
+func (b *Builder) checkBindings() error {
+	for _, path := range b.paths() {
+		file := b.pkg.Files[path]
+		for _, spec := range file.Specs {
+			t, ok := spec.(*ast.TypeSpec)
+			if !ok {
+				continue
+			}
+			server, ok := t.Type.(*ast.ServerType)
+			if !ok {
+				continue
+			}
+			for _, method := range server.Methods {
+				err := b.checkBinding(file, method)
+				if err != nil {
+					return ErrorToFileError(err, b.fset)
+				}
+			}
+		}
+	}
+	return nil
+}
+
+func (b *Builder) checkBinding(file *ast.File, method *ast.FuncType) error {
+	bind, err := GetBinding(method.Tags, file, func(file *ast.File, name string) *ast.Object {
+		return b.getServerExtends(file, 0, name)
+	})
+	if err != nil || nil == bind {
+		return err
+	}
+	param, bindParam := MethodData(method.Param), MethodData(bind.Method.Param)
+	if param != bindParam && nil == BasePath(param, bindParam) {
+		return NewError(method.Param.Pos(), "Parameter is not a "+bindParam.Name.Name+": "+param.Name.Name)
+	}
+	result, bindResult := MethodData(method.Result), MethodData(bind.Method.Result)
+	if nil == result || result == bindResult {
+		return nil
+	}
+	if nil == bindResult {
+		return NewError(method.Result.Pos(), "Bound method has no result: "+bind.Method.Name.Name)
+	}
+	if nil == BasePath(result, bindResult) {
+		return NewError(method.Result.Pos(), "Result is not a "+bindResult.Name.Name+": "+result.Name.Name)
+	}
+	return nil
+}
diff --git a/pkg/build/build.go b/pkg/build/build.go
index e42c3c4..24eec89 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -179,7 +179,11 @@ func (b *Builder) checkFiles() error {
 		}
 	}
 
-	return b.checkCycles()
+	err := b.checkCycles()
+	if err != nil {
+		return err
+	}
+	return b.checkBindings()
 }
 
 // checkCycles reports a type that inherits from itself. It needs the extends of
diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 40b32c3..37b590f 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -5,6 +5,7 @@ import (
 	"hbuf/pkg/build"
 	"sort"
 	"strconv"
+	"strings"
 )
 
 func (b *Builder) printServerCode(dst *build.Writer, typ *ast.ServerType) error {
@@ -81,8 +82,6 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 		}
 		isSub := method.Result.Type().(*ast.Ident).Name == "void"
 
-		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/erro", "")
-
 		dst.Code("func (s *Default" + serverName + ") ")
 		dst.Code(build.StringToHumpName(method.Name.Name))
 		dst.Code("(ctx context.Context, ")
@@ -108,9 +107,13 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 				dst.Code("\treturn nil,")
 			}
 
+			dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/erro", "")
 			dst.Code(" erro.NewError(\"not find server " + build.StringToUnderlineName(typ.Name.Name) + "\")\n")
 		} else {
-			b.printBinding(dst, method, bind, isSub)
+			err = b.printBinding(dst, method, bind, isSub)
+			if nil != err {
+				return err
+			}
 		}
 		dst.Code("}\n\n")
 	}
@@ -118,41 +121,57 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 }
 
 func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *build.Binding, isSub bool) error {
-	param := method.Param.Type().(*ast.Ident).Obj.Decl.(*ast.TypeSpec).Type.(*ast.DataType)
+	param := build.MethodData(method.Param)
 	verify, err := build.GetVerify(param.Tags, build.DataFile(param), b.GetDataType)
 	if err != nil {
 		return err
 	}
+	name := build.StringToFirstLower(method.ParamName.Name)
+	ret := "nil, "
+	if isSub {
+		ret = ""
+	}
 	if nil != verify {
-		dst.Code("\tif err := req.Verify(ctx); err != nil {\n")
-		dst.Code("\t\treturn nil, erro.Wrap(err)\n")
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/erro", "")
+		dst.Code("\tif err := " + name + ".Verify(ctx); err != nil {\n")
+		dst.Code("\t\treturn " + ret + "erro.Wrap(err)\n")
 		dst.Code("\t}\n")
 	}
-	pack := b.getPackage(dst, bind.Server.Name)
-	if !isSub {
-		dst.Code("\treps, err := ")
+
+	call := b.getPackage(dst, bind.Server.Name) + "Get" + build.StringToHumpName(bind.Server.Name.Name) + "(ctx)." + build.StringToHumpName(bind.Method.Name.Name) + "(ctx, "
+	if bindParam := build.MethodData(bind.Method.Param); bindParam == param {
+		call += name + ")"
 	} else {
-		dst.Code("\terr := ")
+		call += "&" + name + "." + build.StringToHumpName(bindParam.Name.Name) + ")"
 	}
-	dst.Code(pack)
-	dst.Code("Get").Code(build.StringToHumpName(bind.Server.Name.Name)).Code("(ctx).").Code(build.StringToHumpName(bind.Method.Name.Name)).Code("(ctx, &")
-	dst.Code("req.")
-	b.printType(dst, bind.Method.Param.Type(), true)
-	dst.Code(")\n")
 
+	result := build.MethodData(method.Result)
+	bindResult := build.MethodData(bind.Method.Result)
+	if isSub && nil != bindResult {
+		dst.Code("\t_, err := " + call + "\n")
+		dst.Code("\treturn err\n")
+		return nil
+	}
+	if result == bindResult {
+		dst.Code("\treturn " + call + "\n")
+		return nil
+	}
+	dst.Code("\tret, err := " + call + "\n")
 	dst.Code("\tif err != nil {\n")
 	dst.Code("\t\treturn nil, err\n")
 	dst.Code("\t}\n")
-
-	dst.Code("\treturn ")
-	if !isSub {
-		dst.Code("&")
-		b.printType(dst, method.Result.Type(), true)
-		dst.Code("{")
-		b.printType(dst, bind.Method.Result.Type(), true)
-		dst.Code(": *reps}, ")
+	dst.Code("\treturn &")
+	b.printType(dst, method.Result.Type(), true)
+	bases := build.BasePath(result, bindResult)
+	for i, base := range bases {
+		dst.Code("{" + build.StringToHumpName(base.Name) + ": ")
+		if i < len(bases)-1 {
+			b.printType(dst, base, true)
+		} else {
+			dst.Code("*ret")
+		}
 	}
-	dst.Code("nil\n")
+	dst.Code(strings.Repeat("}", len(bases)) + ", nil\n")
 	return nil
 }
 
diff --git a/pkg/golang/verify.go b/pkg/golang/verify.go
index 91970de..e6b2d5f 100644
--- a/pkg/golang/verify.go
+++ b/pkg/golang/verify.go
@@ -39,6 +39,8 @@ func (b *Builder) GetDataType(file *ast.File, name string) *ast.Object {
 				return obj
 			case *ast.EnumType:
 				return obj
+			case *ast.ServerType:
+				return obj
 			}
 		}
 	}
-- 
2.43.0


From cac415277e7ec84326cf9e8822965d197510344f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:35 +0000
Subject: [PATCH 32/91] fix: import the cache package into every Go database
 file that uses it

---
 pkg/golang/database.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 61777a3..44ebd5b 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -596,6 +596,7 @@ func (b *Builder) printCountData(dst *build.Writer, typ *ast.DataType, db *build
 
 	dst.Code("\tvar count int64\n")
 	if nil != c {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\tc, key, _ := cache.DbGet(ctx, \"\", tableName, s, &count)\n")
 		dst.Code("\tif c != nil {\n")
 		dst.Code("\t\treturn *c, nil\n")
@@ -635,6 +636,7 @@ func (b *Builder) printDeleteData(dst *build.Writer, db *build.DB, wFields []*bu
 	dst.Code("func (g " + fName + ") DbDel(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if isCache {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
@@ -663,6 +665,7 @@ func (b *Builder) printRemoveData(dst *build.Writer, db *build.DB, wFields []*bu
 	dst.Code("func (g " + fName + ") DbRemove(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if isCache {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
@@ -689,6 +692,7 @@ func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val stri
 	dst.Code("func (g " + fName + ") DbInsert(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if nil != c {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
@@ -714,6 +718,7 @@ func (b *Builder) printInsertListData(dst *build.Writer, typ *ast.DataType, db *
 	dst.Code("\t\treturn 0, 0, nil\n")
 	dst.Code("\t}\n")
 	if isCache {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
@@ -762,6 +767,7 @@ func (b *Builder) printUpdateData(dst *build.Writer, typ *ast.DataType, key stri
 	dst.Code("func (g " + fName + ") DbUpdate(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if nil != c {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
@@ -794,6 +800,7 @@ func (b *Builder) printSetData(dst *build.Writer, typ *ast.DataType, key string,
 	dst.Code("func (g " + fName + ") DbSet(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if nil != c {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
 		dst.Code("\tif err != nil {\n")
 		dst.Code("\t\treturn 0, 0, err\n")
-- 
2.43.0


From b91bcd2a3b96ce980a173c0c613286c416862717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:52 +0000
Subject: [PATCH 33/91] fix: import into Go database files only what their code
 uses

---
 pkg/golang/database.go | 42 ++++++++++++++++++++++++++++--------------
 pkg/golang/gloang.go   |  3 ++-
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 44ebd5b..7d93d94 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -47,9 +47,6 @@ func getCache(name string, tags []*ast.Tag) *cache {
 }
 
 func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error {
-	dst.Import("context", "")
-	dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
-
 	dbs, wFields, key, err := b.getDBField(typ)
 	if 0 == len(dbs) || nil != err {
 		return nil
@@ -225,7 +222,7 @@ func (b *Builder) getDBField(typ *ast.DataType) ([]*build.DB, []*build.DBField,
 
 func (b *Builder) printScanData(dst *build.Writer, typ *ast.DataType, db *build.DB, fields []*build.DBField, key *build.DBField) {
 	name := build.StringToHumpName(typ.Name.Name)
-	item, scan, _ := b.getItemAndValue(fields, "self")
+	item, scan, _ := b.getItemAndValue(dst, fields, "self")
 	dst.Code("func (val *" + name + ") DbScan() (string, []any) {\n")
 	dst.Code("\treturn `" + item.String() + "`,\n")
 	dst.Code("\t\t[]any{" + scan.String() + "}\n")
@@ -241,7 +238,7 @@ func (b *Builder) printNameData(dst *build.Writer, typ *ast.DataType) {
 	dst.Code("\n")
 }
 
-func (b *Builder) getItemAndValue(fields []*build.DBField, key string) (strings.Builder, strings.Builder, strings.Builder) {
+func (b *Builder) getItemAndValue(dst *build.Writer, fields []*build.DBField, key string) (strings.Builder, strings.Builder, strings.Builder) {
 	item := strings.Builder{}
 	scan := strings.Builder{}
 	ques := strings.Builder{}
@@ -268,7 +265,7 @@ func (b *Builder) getItemAndValue(fields []*build.DBField, key string) (strings.
 		}
 		isFist = false
 		item.WriteString(get)
-		scan.WriteString(b.converter(field, "val"))
+		scan.WriteString(b.converter(dst, field, "val"))
 		ques.WriteString("?")
 	}
 	return item, scan, ques
@@ -428,7 +425,7 @@ func (b *Builder) printParam(buf *build.Writer, text string, self *build.DBField
 					buf.Code("utl.ToAnyList(g." + build.StringToHumpName(field.Field.Name.Name) + ")...")
 				} else {
 					buf.Code(".V(")
-					buf.Code(b.converter(field, "g"))
+					buf.Code(b.converter(buf, field, "g"))
 					buf.Code(temp)
 				}
 				buf.Code(")")
@@ -460,7 +457,9 @@ func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string
 	w := b.getParamWhere(dst, wFields, true, true, true)
 	dst.AddImports(w.GetImports())
 
-	item, scan, _ := b.getItemAndValue(fields, key)
+	item, scan, _ := b.getItemAndValue(dst, fields, key)
+	dst.Import("context", "")
+	dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
 	dst.Code("func (g " + fName + ") DbList(ctx context.Context) ([]" + dName + ", error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	dst.Code("\ts := db.NewSql()\n")
@@ -527,7 +526,9 @@ func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType,
 	dst.AddImports(kType.GetImports())
 	dst.AddImports(KName.GetImports())
 
-	item, scan, _ := b.getItemAndValue(fields, key)
+	item, scan, _ := b.getItemAndValue(dst, fields, key)
+	dst.Import("context", "")
+	dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
 	dst.Code("func (g " + fName + ") DbMap(ctx context.Context) (map[" + kType.String() + "]" + dName + ", error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	dst.Code("\ts := db.NewSql()\n")
@@ -583,6 +584,8 @@ func (b *Builder) printCountData(dst *build.Writer, typ *ast.DataType, db *build
 	w := b.getParamWhere(dst, wFields, false, false, true)
 	dst.AddImports(w.GetImports())
 
+	dst.Import("context", "")
+	dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
 	dst.Code("func (g " + fName + ") DbCount(ctx context.Context) (int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	dst.Code("\ts := db.NewSql()\n")
@@ -633,6 +636,8 @@ func (b *Builder) printDeleteData(dst *build.Writer, db *build.DB, wFields []*bu
 	w := b.getParamWhere(dst, wFields, true, false, false)
 	dst.AddImports(w.GetImports())
 
+	dst.Import("context", "")
+	dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
 	dst.Code("func (g " + fName + ") DbDel(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if isCache {
@@ -662,6 +667,8 @@ func (b *Builder) printRemoveData(dst *build.Writer, db *build.DB, wFields []*bu
 	w := b.getParamWhere(dst, wFields, true, false, false)
 	dst.AddImports(w.GetImports())
 
+	dst.Import("context", "")
+	dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
 	dst.Code("func (g " + fName + ") DbRemove(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if isCache {
@@ -686,9 +693,8 @@ func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val stri
 	if typ != fType {
 		val = "parent"
 	}
-	w := b.getParamWhere(dst, wFields, false, false, false)
-	dst.AddImports(w.GetImports())
-
+	dst.Import("context", "")
+	dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
 	dst.Code("func (g " + fName + ") DbInsert(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if nil != c {
@@ -712,6 +718,8 @@ func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val stri
 
 func (b *Builder) printInsertListData(dst *build.Writer, typ *ast.DataType, db *build.DB, fields []*build.DBField, key *build.DBField, isCache bool) {
 	name := build.StringToHumpName(typ.Name.Name)
+	dst.Import("context", "")
+	dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
 	dst.Code("func (g " + name + ") DbInsertList(ctx context.Context, val []*" + name + ") (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	dst.Code("\tif nil == val || 0 == len(val) {\n")
@@ -747,7 +755,7 @@ func (b *Builder) printInsertListData(dst *build.Writer, typ *ast.DataType, db *
 			dst.Code(", ")
 		}
 		isFist = false
-		dst.Code(b.converter(field, "val"))
+		dst.Code(b.converter(dst, field, "val"))
 	}
 	dst.Code(").T(\")\")\n")
 	dst.Code("\t}\n")
@@ -764,6 +772,8 @@ func (b *Builder) printUpdateData(dst *build.Writer, typ *ast.DataType, key stri
 	w := b.getParamWhere(dst, fields, false, false, false)
 	dst.AddImports(w.GetImports())
 
+	dst.Import("context", "")
+	dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
 	dst.Code("func (g " + fName + ") DbUpdate(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if nil != c {
@@ -797,6 +807,8 @@ func (b *Builder) printSetData(dst *build.Writer, typ *ast.DataType, key string,
 	w := b.getParamWhere(dst, wFields, false, false, false)
 	dst.AddImports(w.GetImports())
 
+	dst.Import("context", "")
+	dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
 	dst.Code("func (g " + fName + ") DbSet(ctx context.Context) (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	if nil != c {
@@ -866,8 +878,10 @@ func (b *Builder) printGetData(dst *build.Writer, typ *ast.DataType, key string,
 	w := b.getParamWhere(dst, wFields, false, true, true)
 	dst.AddImports(w.GetImports())
 
-	item, scan, _ := b.getItemAndValue(fields, key)
+	item, scan, _ := b.getItemAndValue(dst, fields, key)
 
+	dst.Import("context", "")
+	dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
 	dst.Code("func (g " + fName + ") DbGet(ctx context.Context) (*" + dName + ", error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	dst.Code("\ts := db.NewSql()\n")
diff --git a/pkg/golang/gloang.go b/pkg/golang/gloang.go
index f82563d..1f7fbbe 100644
--- a/pkg/golang/gloang.go
+++ b/pkg/golang/gloang.go
@@ -337,9 +337,10 @@ func (b *Builder) getKey(dst *build.Writer, fields []*build.DBField, name string
 	return param, where, false
 }
 
-func (b *Builder) converter(field *build.DBField, name string) string {
+func (b *Builder) converter(dst *build.Writer, field *build.DBField, name string) string {
 	fName := build.StringToHumpName(field.Field.Name.Name)
 	if "json" == field.Dbs[0].Converter {
+		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
 		return "db.NewJson(&" + name + "." + fName + ")"
 	}
 	return "&" + name + "." + fName
-- 
2.43.0


From a80dbdc777ab7f288aac0d4293e0a9cd6270bbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:56 +0000
Subject: [PATCH 34/91] fix: take each of several where texts in its own length

---
 pkg/build/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/build/database.go b/pkg/build/database.go
index 15c700b..925bb8d 100644
--- a/pkg/build/database.go
+++ b/pkg/build/database.go
@@ -74,7 +74,7 @@ func GetDB(n string, tag []*ast.Tag) []*DB {
 					} else if "where" == item.Name.Name {
 						where := make([]string, len(item.Values))
 						for i, val := range item.Values {
-							where[i] = val.Value[1 : len(item.Values[0].Value)-1]
+							where[i] = val.Value[1 : len(val.Value)-1]
 						}
 						db.Where = where
 					} else if "offset" == item.Name.Name {
-- 
2.43.0


From 66272b40795066a08fa6f50403a42ae5c6ba168f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:59 +0000
Subject: [PATCH 35/91] fix: keep the case of the member that keys a map query

---
 pkg/build/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/build/database.go b/pkg/build/database.go
index 925bb8d..cdc3812 100644
--- a/pkg/build/database.go
+++ b/pkg/build/database.go
@@ -96,7 +96,7 @@ func GetDB(n string, tag []*ast.Tag) []*DB {
 					} else if "list" == item.Name.Name {
 						db.List = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
 					} else if "map" == item.Name.Name {
-						db.Map = strings.ToLower(item.Values[0].Value[1 : len(item.Values[0].Value)-1])
+						db.Map = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
 					} else if "table" == item.Name.Name {
 						db.Table = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
 					} else if "set" == item.Name.Name {
-- 
2.43.0


From 70ff308c926e7e674db4b51a69e5900f8a0ff2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:02 +0000
Subject: [PATCH 36/91] fix: address a row by the column of its key, whatever
 its name

---
 pkg/golang/database.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 7d93d94..89880d9 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -113,7 +113,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 	if fDbs[0].Del {
 		w := wFields
 		if typ == fType {
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
 		b.printDeleteData(dst, dbs[0], w, fType, nil != c)
@@ -122,7 +122,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 	if fDbs[0].Remove {
 		w := wFields
 		if typ == fType {
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
 		b.printRemoveData(dst, dbs[0], w, fType, nil != c)
@@ -155,7 +155,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			f = wFields
 		}
 		if typ == fType {
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
 		b.printUpdateData(dst, typ, val, dbs[0], w, f, fType, c)
@@ -169,7 +169,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			f = wFields
 		}
 		if typ == fType {
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			w = []*build.DBField{key}
 		}
 		b.printSetData(dst, typ, val, dbs[0], w, f, fType, c)
@@ -183,7 +183,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 			f = wFields
 		}
 		if typ == fType {
-			key.Dbs[0].Where = []string{"AND id = ?"}
+			key.Dbs[0].Where = []string{"AND " + key.Dbs[0].Name + " = ?"}
 			key.Dbs[0].DefaultWhere = true
 			w = []*build.DBField{key}
 		}
-- 
2.43.0


From 5e5fa95f6242da4b9be7445b1ecfb32e4d220b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:04 +0000
Subject: [PATCH 37/91] fix: select a column by the same name that inserts and
 updates use

---
 pkg/golang/database.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 89880d9..e6aa22d 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -246,14 +246,14 @@ func (b *Builder) getItemAndValue(dst *build.Writer, fields []*build.DBField, ke
 	for _, field := range fields {
 		get := ""
 		if 0 < len(field.Dbs[0].Get) {
-			get = strings.ReplaceAll(field.Dbs[0].Get, "?", build.StringToUnderlineName(field.Dbs[0].Name))
+			get = strings.ReplaceAll(field.Dbs[0].Get, "?", field.Dbs[0].Name)
 		} else if "self" == key && (field.Dbs[0].DefaultWhere ||
 			0 == len(field.Dbs[0].Where) &&
 				0 == len(field.Dbs[0].Limit) &&
 				0 == len(field.Dbs[0].Group) &&
 				0 == len(field.Dbs[0].Offset) &&
 				0 == len(field.Dbs[0].Order)) {
-			get = build.StringToUnderlineName(field.Dbs[0].Name)
+			get = field.Dbs[0].Name
 		} else {
 			continue
 		}
-- 
2.43.0


From eed9e90ad0f90c4e95640801ca75cf912604c024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:06 +0000
Subject: [PATCH 38/91] fix: restrict an update by the conditions of its own
 data, not of the columns

---
 pkg/golang/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index e6aa22d..ff6ce77 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -769,7 +769,7 @@ func (b *Builder) printUpdateData(dst *build.Writer, typ *ast.DataType, key stri
 	if typ != fType {
 		key = "parent"
 	}
-	w := b.getParamWhere(dst, fields, false, false, false)
+	w := b.getParamWhere(dst, wFields, false, false, false)
 	dst.AddImports(w.GetImports())
 
 	dst.Import("context", "")
-- 
2.43.0


From f1dd2dd884bb0e545fb3a9a59f58292355a0cc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:25 +0000
Subject: [PATCH 39/91] fix: generate no database functions for a table without
 columns instead of failing

---
 pkg/golang/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index ff6ce77..bebeada 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -72,7 +72,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 		}
 	}
 
-	if 0 == len(fDbs) {
+	if 0 == len(fields) {
 		return nil
 	}
 
-- 
2.43.0


From d9378167734d8481f3b72049048699e41c9c5284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:28 +0000
Subject: [PATCH 40/91] fix: give cache entries a time within their bounds also
 when the bounds are equal or only one is set

---
 pkg/golang/database.go | 53 ++++++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 28 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index bebeada..83ad711 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -24,9 +24,11 @@ func getCache(name string, tags []*ast.Tag) *cache {
 		min: 2 * 60 * 60,
 		max: 3 * 60 * 60,
 	}
+	isMin := false
 	if nil != val.KV {
 		for _, item := range val.KV {
 			if "min" == item.Name.Name {
+				isMin = true
 				val, err := strconv.Atoi(item.Values[0].Value[1 : len(item.Values[0].Value)-1])
 				if err != nil {
 					//TODO 添加错误处理
@@ -43,6 +45,9 @@ func getCache(name string, tags []*ast.Tag) *cache {
 			}
 		}
 	}
+	if c.max < c.min && !isMin {
+		c.min = c.max
+	}
 	return c
 }
 
@@ -446,6 +451,22 @@ func (b *Builder) printParam(buf *build.Writer, text string, self *build.DBField
 	return nil
 }
 
+// printCacheTime prints how long an entry lives: a random time between the bounds,
+// or 0 for no end.
+func (b *Builder) printCacheTime(dst *build.Writer, c *cache) {
+	if 0 >= c.min {
+		dst.Code("0")
+		return
+	}
+	dst.Import("time", "")
+	if c.max <= c.min {
+		dst.Code(strconv.Itoa(c.min) + "*time.Second")
+		return
+	}
+	dst.Import("math/rand", "")
+	dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + ")+" + strconv.Itoa(c.min) + ")*time.Second")
+}
+
 func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) {
 	fName := build.StringToHumpName(fType.Name.Name)
 	dName := build.StringToHumpName(typ.Name.Name)
@@ -493,14 +514,8 @@ func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string
 	dst.Code("\t}\n")
 
 	if nil != c {
-		dst.Import("math/rand", "")
-		dst.Import("time", "")
 		dst.Code("\t_, _ = cache.DbSet(ctx, key, tableName, s, &ret, ")
-		if 0 < c.min {
-			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + ")+" + strconv.Itoa(c.min) + ")*time.Second")
-		} else {
-			dst.Code("0")
-		}
+		b.printCacheTime(dst, c)
 		dst.Code(")\n")
 		dst.Code("\tdefer cache.DbUnlock(ctx, tableName)\n")
 	}
@@ -562,14 +577,8 @@ func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType,
 	dst.Code("\t}\n")
 
 	if nil != c {
-		dst.Import("math/rand", "")
-		dst.Import("time", "")
 		dst.Code("\t_, _ = cache.DbSet(ctx, key, tableName, s, &ret, ")
-		if 0 < c.min {
-			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + ")+" + strconv.Itoa(c.min) + ")*time.Second")
-		} else {
-			dst.Code("0")
-		}
+		b.printCacheTime(dst, c)
 		dst.Code(")\n")
 		dst.Code("\tdefer cache.DbUnlock(ctx, tableName)\n")
 	}
@@ -614,14 +623,8 @@ func (b *Builder) printCountData(dst *build.Writer, typ *ast.DataType, db *build
 	dst.Code("\t}\n")
 
 	if nil != c {
-		dst.Import("math/rand", "")
-		dst.Import("time", "")
 		dst.Code("\t_, _ = cache.DbSet(ctx, key, tableName, s, &count, ")
-		if 0 < c.min {
-			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + ")+" + strconv.Itoa(c.min) + ")*time.Second")
-		} else {
-			dst.Code("0")
-		}
+		b.printCacheTime(dst, c)
 		dst.Code(")\n")
 		dst.Code("\tdefer cache.DbUnlock(ctx, tableName)\n")
 	}
@@ -911,14 +914,8 @@ func (b *Builder) printGetData(dst *build.Writer, typ *ast.DataType, key string,
 	dst.Code("\t\treturn nil, err\n")
 	dst.Code("\t}\n")
 	if nil != c {
-		dst.Import("math/rand", "")
-		dst.Import("time", "")
 		dst.Code("\t_, _ = cache.DbSet(ctx, key, tableName, s, &val, ")
-		if 0 < c.min {
-			dst.Code("time.Duration(rand.Intn(" + strconv.Itoa(c.max) + "-" + strconv.Itoa(c.min) + ")+" + strconv.Itoa(c.min) + ")*time.Second")
-		} else {
-			dst.Code("0")
-		}
+		b.printCacheTime(dst, c)
 		dst.Code(")\n")
 		dst.Code("\tdefer cache.DbUnlock(ctx, tableName)\n")
 	}
-- 
2.43.0


From 26970e5636517e539a7ca9f85e575dc4bc864802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:02 +0000
Subject: [PATCH 41/91] fix: drop the conditions that a short list has no value
 for instead of failing

---
 pkg/golang/database.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 83ad711..98a9b39 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -308,7 +308,14 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 					_ = b.printParam(where, item, field, fields, "["+strconv.Itoa(i)+"]", "\t\ts")
 					where.Code("\t}\n")
 				} else {
-					_ = b.printParam(where, item, field, fields, "["+strconv.Itoa(i)+"]", "\ts")
+					where.Code("\tif " + strconv.Itoa(i) + " < len(g." + fieldName + ")")
+					array := field.Field.Type.(*ast.ArrayType)
+					if array.VType.Empty {
+						where.Code(" && nil != g." + fieldName + "[" + strconv.Itoa(i) + "]")
+					}
+					where.Code(" {\n")
+					_ = b.printParam(where, item, field, fields, "["+strconv.Itoa(i)+"]", "\t\ts")
+					where.Code("\t}\n")
 				}
 			}
 		}
-- 
2.43.0


From f8dbe823ffe8df050764eeab65fe856807dcaf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:04 +0000
Subject: [PATCH 42/91] fix: leave out LIMIT and OFFSET when their members are
 null

---
 pkg/golang/database.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 98a9b39..489334b 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -368,18 +368,36 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 
 	if page {
 		if limit, ok := b.getLimit(fields); ok {
+			if build.IsNil(limit.Field.Type) {
+				where.Code("\tif nil != g." + build.StringToHumpName(limit.Field.Name.Name) + " {\n")
+			}
 			if offset, ok := b.getOffset(fields); ok {
+				if build.IsNil(offset.Field.Type) {
+					where.Code("\tif nil != g." + build.StringToHumpName(offset.Field.Name.Name) + " {\n")
+				}
 				where.Code("\ts.T(\" LIMIT " + offset.Dbs[0].Offset + ", " + limit.Dbs[0].Limit + "\")")
 				where.Code(".P(g." + build.StringToHumpName(offset.Field.Name.Name) + ", g." + build.StringToHumpName(limit.Field.Name.Name) + ")\n")
+				if build.IsNil(offset.Field.Type) {
+					where.Code("\t} else {\n")
+					b.printLimit(where, limit)
+					where.Code("\t}\n")
+				}
 			} else {
-				where.Code("\ts.T(\" LIMIT " + limit.Dbs[0].Limit + "\")")
-				where.Code(".P(g." + build.StringToHumpName(limit.Field.Name.Name) + ")\n")
+				b.printLimit(where, limit)
+			}
+			if build.IsNil(limit.Field.Type) {
+				where.Code("\t}\n")
 			}
 		}
 	}
 	return where
 }
 
+func (b *Builder) printLimit(dst *build.Writer, limit *build.DBField) {
+	dst.Code("\ts.T(\" LIMIT " + limit.Dbs[0].Limit + "\")")
+	dst.Code(".P(g." + build.StringToHumpName(limit.Field.Name.Name) + ")\n")
+}
+
 func (b *Builder) findField(fields []*build.DBField, name string) *build.DBField {
 	for _, item := range fields {
 		if item.Field.Name.Name == name {
-- 
2.43.0


From a9b1fb61d4dc71c8365042e125425aca5fc3d167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:37 +0000
Subject: [PATCH 43/91] fix: write one GROUP BY and one ORDER BY whatever
 number of members add to it

---
 pkg/golang/database.go | 81 +++++++++++++++++++++++-------------------
 1 file changed, 44 insertions(+), 37 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 489334b..107e416 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -322,48 +322,22 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 	}
 
 	if groupBy {
-		isFist := true
-		for _, field := range fields {
-			group := field.Dbs[0].Group
-			if 0 < len(group) {
-				if build.IsNil(field.Field.Type) {
-					where.Code("\tif nil != g." + build.StringToHumpName(field.Field.Name.Name) + " {\t")
-				}
-				if isFist {
-					where.Code("\ts.T(\" GROUP BY \")")
-				} else {
-					where.Code("\ts.T(\", \")")
-				}
-
-				_ = b.printParam(where, group, field, fields, "", "")
-				if build.IsNil(field.Field.Type) {
-					where.Code("\t}\n")
-				}
+		b.printClause(where, fields, "group", " GROUP BY ", func(db *build.DB) string { return db.Group }, func(field *build.DBField) string {
+			if build.IsNil(field.Field.Type) {
+				return "nil != g." + build.StringToHumpName(field.Field.Name.Name)
 			}
-		}
+			return ""
+		})
 	}
 
 	if orderBy {
-
-		for _, field := range fields {
-			order := field.Dbs[0].Order
-			if 0 < len(order) {
-				where.Code("\tif ")
-				if build.IsNil(field.Field.Type) {
-					where.Code("nil != g." + build.StringToHumpName(field.Field.Name.Name))
-					where.Code(" && (\"ASC\" == *g." + build.StringToHumpName(field.Field.Name.Name) + " || \"DESC\" == *g." + build.StringToHumpName(field.Field.Name.Name) + ")")
-				} else {
-					where.Code("\"ASC\" == g." + build.StringToHumpName(field.Field.Name.Name) + " || \"DESC\" == g." + build.StringToHumpName(field.Field.Name.Name))
-				}
-
-				where.Code(" {\n")
-				where.Code("\t\ts.T(\" ORDER BY \")")
-
-				_ = b.printParam(where, order, field, fields, "", "")
-
-				where.Code("\t}\n")
+		b.printClause(where, fields, "order", " ORDER BY ", func(db *build.DB) string { return db.Order }, func(field *build.DBField) string {
+			name := "g." + build.StringToHumpName(field.Field.Name.Name)
+			if build.IsNil(field.Field.Type) {
+				return "nil != " + name + " && (\"ASC\" == *" + name + " || \"DESC\" == *" + name + ")"
 			}
-		}
+			return "\"ASC\" == " + name + " || \"DESC\" == " + name
+		})
 	}
 
 	if page {
@@ -393,6 +367,39 @@ func (b *Builder) getParamWhere(dst *build.Writer, fields []*build.DBField, page
 	return where
 }
 
+// printClause prints the texts of a GROUP BY or ORDER BY, each one under the
+// condition of its field. The keyword stands before the first and a comma before
+// every other text that the statement gets.
+func (b *Builder) printClause(dst *build.Writer, fields []*build.DBField, name string, keyword string, text func(db *build.DB) string, condition func(field *build.DBField) string) {
+	var list []*build.DBField
+	for _, field := range fields {
+		if 0 < len(text(field.Dbs[0])) {
+			list = append(list, field)
+		}
+	}
+	if 1 < len(list) {
+		dst.Code("\t" + name + " := \"" + keyword + "\"\n")
+	}
+	for _, field := range list {
+		cond := condition(field)
+		if 0 < len(cond) {
+			dst.Code("\tif " + cond + " {\n")
+		}
+		if 1 < len(list) {
+			dst.Code("\ts.T(" + name + ")")
+		} else {
+			dst.Code("\ts.T(\"" + keyword + "\")")
+		}
+		_ = b.printParam(dst, text(field.Dbs[0]), field, fields, "", "")
+		if 1 < len(list) {
+			dst.Code("\t" + name + " = \", \"\n")
+		}
+		if 0 < len(cond) {
+			dst.Code("\t}\n")
+		}
+	}
+}
+
 func (b *Builder) printLimit(dst *build.Writer, limit *build.DBField) {
 	dst.Code("\ts.T(\" LIMIT " + limit.Dbs[0].Limit + "\")")
 	dst.Code(".P(g." + build.StringToHumpName(limit.Field.Name.Name) + ")\n")
-- 
2.43.0


From fc8ab7dfae93c4bd95f3c424b0113a7ce63b7fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:39 +0000
Subject: [PATCH 44/91] fix: quote the SQL texts of the schema in the Go code

---
 pkg/golang/database.go | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 107e416..dd6ec56 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -229,7 +229,7 @@ func (b *Builder) printScanData(dst *build.Writer, typ *ast.DataType, db *build.
 	name := build.StringToHumpName(typ.Name.Name)
 	item, scan, _ := b.getItemAndValue(dst, fields, "self")
 	dst.Code("func (val *" + name + ") DbScan() (string, []any) {\n")
-	dst.Code("\treturn `" + item.String() + "`,\n")
+	dst.Code("\treturn " + strconv.Quote(item.String()) + ",\n")
 	dst.Code("\t\t[]any{" + scan.String() + "}\n")
 	dst.Code("}\n")
 	dst.Code("\n")
@@ -422,10 +422,8 @@ func (b *Builder) printParam(buf *build.Writer, text string, self *build.DBField
 	if nil != match {
 		var index = 0
 		for _, item := range match {
-			if 0 < item[0] {
-				buf.Code(".T(\"")
-				buf.Code(text[index:item[0]])
-				buf.Code("\")")
+			if index < item[0] {
+				buf.Code(".T(" + strconv.Quote(text[index:item[0]]) + ")")
 			}
 			t := text[item[0]:item[1]]
 			if t == "$" || (2 < len(t) && "${" == t[0:2]) {
@@ -470,14 +468,10 @@ func (b *Builder) printParam(buf *build.Writer, text string, self *build.DBField
 			index = item[1]
 		}
 		if index < len(text) {
-			buf.Code(".T(\"")
-			buf.Code(text[index:])
-			buf.Code("\")")
+			buf.Code(".T(" + strconv.Quote(text[index:]) + ")")
 		}
 	} else {
-		buf.Code(".T(\"")
-		buf.Code(text)
-		buf.Code("\")")
+		buf.Code(".T(" + strconv.Quote(text) + ")")
 	}
 	buf.Code("\n")
 	return nil
@@ -516,7 +510,7 @@ func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string
 	dst.Code("func (g " + fName + ") DbList(ctx context.Context) ([]" + dName + ", error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	dst.Code("\ts := db.NewSql()\n")
-	dst.Code("\ts.T(\"SELECT " + item.String() + " FROM \").T(tableName)")
+	dst.Code("\ts.T(" + strconv.Quote("SELECT "+item.String()+" FROM ") + ").T(tableName)")
 	if db.Fake {
 		dst.Code(".T(\" WHERE delete_time IS  NULL\")\n")
 	} else {
@@ -579,7 +573,7 @@ func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType,
 	dst.Code("func (g " + fName + ") DbMap(ctx context.Context) (map[" + kType.String() + "]" + dName + ", error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	dst.Code("\ts := db.NewSql()\n")
-	dst.Code("\ts.T(\"SELECT " + item.String() + " FROM \").T(tableName)")
+	dst.Code("\ts.T(" + strconv.Quote("SELECT "+item.String()+" FROM ") + ").T(tableName)")
 	if db.Fake {
 		dst.Code(".T(\" WHERE delete_time IS  NULL\")\n")
 	} else {
@@ -920,7 +914,7 @@ func (b *Builder) printGetData(dst *build.Writer, typ *ast.DataType, key string,
 	dst.Code("func (g " + fName + ") DbGet(ctx context.Context) (*" + dName + ", error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
 	dst.Code("\ts := db.NewSql()\n")
-	dst.Code("\ts.T(\"SELECT " + item.String() + " FROM \").T(tableName)")
+	dst.Code("\ts.T(" + strconv.Quote("SELECT "+item.String()+" FROM ") + ").T(tableName)")
 	if db.Fake {
 		dst.Code(".T(\" WHERE delete_time IS  NULL\")\n")
 	} else {
-- 
2.43.0


From fe449fe64fa0318d905f61fd7871bcc9f0ba33b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:54 +0000
Subject: [PATCH 45/91] fix: quote table and column names of the schema in the
 Go code

---
 pkg/golang/database.go | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index dd6ec56..96c3e38 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -508,7 +508,7 @@ func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string
 	dst.Import("context", "")
 	dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
 	dst.Code("func (g " + fName + ") DbList(ctx context.Context) ([]" + dName + ", error) {\n")
-	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
+	dst.Tab(1).Code("tableName := db.GET(ctx).Table(").Code(strconv.Quote(b.GetTableName(db))).Code(")\n")
 	dst.Code("\ts := db.NewSql()\n")
 	dst.Code("\ts.T(" + strconv.Quote("SELECT "+item.String()+" FROM ") + ").T(tableName)")
 	if db.Fake {
@@ -571,7 +571,7 @@ func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType,
 	dst.Import("context", "")
 	dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
 	dst.Code("func (g " + fName + ") DbMap(ctx context.Context) (map[" + kType.String() + "]" + dName + ", error) {\n")
-	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
+	dst.Tab(1).Code("tableName := db.GET(ctx).Table(").Code(strconv.Quote(b.GetTableName(db))).Code(")\n")
 	dst.Code("\ts := db.NewSql()\n")
 	dst.Code("\ts.T(" + strconv.Quote("SELECT "+item.String()+" FROM ") + ").T(tableName)")
 	if db.Fake {
@@ -622,7 +622,7 @@ func (b *Builder) printCountData(dst *build.Writer, typ *ast.DataType, db *build
 	dst.Import("context", "")
 	dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
 	dst.Code("func (g " + fName + ") DbCount(ctx context.Context) (int64, error) {\n")
-	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
+	dst.Tab(1).Code("tableName := db.GET(ctx).Table(").Code(strconv.Quote(b.GetTableName(db))).Code(")\n")
 	dst.Code("\ts := db.NewSql()\n")
 	dst.Code("\ts.T(\"SELECT COUNT(1) FROM \").T(tableName)")
 	if db.Fake {
@@ -668,7 +668,7 @@ func (b *Builder) printDeleteData(dst *build.Writer, db *build.DB, wFields []*bu
 	dst.Import("context", "")
 	dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
 	dst.Code("func (g " + fName + ") DbDel(ctx context.Context) (int64, int64, error) {\n")
-	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
+	dst.Tab(1).Code("tableName := db.GET(ctx).Table(").Code(strconv.Quote(b.GetTableName(db))).Code(")\n")
 	if isCache {
 		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
@@ -699,7 +699,7 @@ func (b *Builder) printRemoveData(dst *build.Writer, db *build.DB, wFields []*bu
 	dst.Import("context", "")
 	dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
 	dst.Code("func (g " + fName + ") DbRemove(ctx context.Context) (int64, int64, error) {\n")
-	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
+	dst.Tab(1).Code("tableName := db.GET(ctx).Table(").Code(strconv.Quote(b.GetTableName(db))).Code(")\n")
 	if isCache {
 		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
@@ -725,7 +725,7 @@ func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val stri
 	dst.Import("context", "")
 	dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
 	dst.Code("func (g " + fName + ") DbInsert(ctx context.Context) (int64, int64, error) {\n")
-	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
+	dst.Tab(1).Code("tableName := db.GET(ctx).Table(").Code(strconv.Quote(b.GetTableName(db))).Code(")\n")
 	if nil != c {
 		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
@@ -750,7 +750,7 @@ func (b *Builder) printInsertListData(dst *build.Writer, typ *ast.DataType, db *
 	dst.Import("context", "")
 	dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
 	dst.Code("func (g " + name + ") DbInsertList(ctx context.Context, val []*" + name + ") (int64, int64, error) {\n")
-	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
+	dst.Tab(1).Code("tableName := db.GET(ctx).Table(").Code(strconv.Quote(b.GetTableName(db))).Code(")\n")
 	dst.Code("\tif nil == val || 0 == len(val) {\n")
 	dst.Code("\t\treturn 0, 0, nil\n")
 	dst.Code("\t}\n")
@@ -763,22 +763,17 @@ func (b *Builder) printInsertListData(dst *build.Writer, typ *ast.DataType, db *
 		dst.Code("\tdefer cache.DbUnlock(ctx, tableName)\n")
 	}
 	dst.Code("\ts := db.NewSql()\n")
-	dst.Code("\ts.T(\"INSERT INTO \").T(tableName).T(\" (")
-	isFist := true
-	for _, field := range fields {
-		if !isFist {
-			dst.Code(", ")
-		}
-		isFist = false
-		dst.Code(field.Dbs[0].Name)
+	names := make([]string, len(fields))
+	for i, field := range fields {
+		names[i] = field.Dbs[0].Name
 	}
-	dst.Code(") VALUES\")\n")
+	dst.Code("\ts.T(\"INSERT INTO \").T(tableName).T(" + strconv.Quote(" ("+strings.Join(names, ", ")+") VALUES") + ")\n")
 	dst.Code("\tfor i, val := range val {\n")
 	dst.Code("\t\tif 0 != i {\n")
 	dst.Code("\t\t\ts.T(\",\")\n")
 	dst.Code("\t\t}\n")
 	dst.Code("\t\ts.T(\"(\").L(\",\", ")
-	isFist = true
+	isFist := true
 	for _, field := range fields {
 		if !isFist {
 			dst.Code(", ")
@@ -804,7 +799,7 @@ func (b *Builder) printUpdateData(dst *build.Writer, typ *ast.DataType, key stri
 	dst.Import("context", "")
 	dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
 	dst.Code("func (g " + fName + ") DbUpdate(ctx context.Context) (int64, int64, error) {\n")
-	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
+	dst.Tab(1).Code("tableName := db.GET(ctx).Table(").Code(strconv.Quote(b.GetTableName(db))).Code(")\n")
 	if nil != c {
 		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
@@ -839,7 +834,7 @@ func (b *Builder) printSetData(dst *build.Writer, typ *ast.DataType, key string,
 	dst.Import("context", "")
 	dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
 	dst.Code("func (g " + fName + ") DbSet(ctx context.Context) (int64, int64, error) {\n")
-	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
+	dst.Tab(1).Code("tableName := db.GET(ctx).Table(").Code(strconv.Quote(b.GetTableName(db))).Code(")\n")
 	if nil != c {
 		dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/cache", "")
 		dst.Code("\terr := cache.DbDel(ctx, tableName)\n")
@@ -912,7 +907,7 @@ func (b *Builder) printGetData(dst *build.Writer, typ *ast.DataType, key string,
 	dst.Import("context", "")
 	dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
 	dst.Code("func (g " + fName + ") DbGet(ctx context.Context) (*" + dName + ", error) {\n")
-	dst.Tab(1).Code("tableName := db.GET(ctx).Table(\"").Code(b.GetTableName(db)).Code("\")\n")
+	dst.Tab(1).Code("tableName := db.GET(ctx).Table(").Code(strconv.Quote(b.GetTableName(db))).Code(")\n")
 	dst.Code("\ts := db.NewSql()\n")
 	dst.Code("\ts.T(" + strconv.Quote("SELECT "+item.String()+" FROM ") + ").T(tableName)")
 	if db.Fake {
-- 
2.43.0


From 5d739c68777bad76670d2c266b685e47bdfeb5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:14 +0000
Subject: [PATCH 46/91] fix: generate the insertion of several rows for the
 data that asks for it

---
 pkg/golang/database.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 96c3e38..07d1bd7 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -149,7 +149,7 @@ func (b *Builder) printDatabaseCode(dst *build.Writer, typ *ast.DataType) error
 		if "self" == val {
 			f = wFields
 		}
-		b.printInsertListData(dst, typ, dbs[0], f, key, nil != c)
+		b.printInsertListData(dst, typ, val, dbs[0], f, fType, nil != c)
 	}
 
 	val = strings.ToLower(fDbs[0].Update)
@@ -745,11 +745,15 @@ func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val stri
 	dst.Code("}\n\n")
 }
 
-func (b *Builder) printInsertListData(dst *build.Writer, typ *ast.DataType, db *build.DB, fields []*build.DBField, key *build.DBField, isCache bool) {
-	name := build.StringToHumpName(typ.Name.Name)
+func (b *Builder) printInsertListData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, fields []*build.DBField, fType *ast.DataType, isCache bool) {
+	name := build.StringToHumpName(fType.Name.Name)
+	dName := build.StringToHumpName(typ.Name.Name)
+	if "self" == key {
+		dName = name
+	}
 	dst.Import("context", "")
 	dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
-	dst.Code("func (g " + name + ") DbInsertList(ctx context.Context, val []*" + name + ") (int64, int64, error) {\n")
+	dst.Code("func (g " + name + ") DbInsertList(ctx context.Context, val []*" + dName + ") (int64, int64, error) {\n")
 	dst.Tab(1).Code("tableName := db.GET(ctx).Table(").Code(strconv.Quote(b.GetTableName(db))).Code(")\n")
 	dst.Code("\tif nil == val || 0 == len(val) {\n")
 	dst.Code("\t\treturn 0, 0, nil\n")
-- 
2.43.0


From 733b90824a589fafce7c96510c03ed2e136ca0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:28 +0000
Subject: [PATCH 47/91] fix: qualify the data of a table that lies in another
 Go package

---
 pkg/golang/database.go | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index 07d1bd7..b6fd2ce 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -495,11 +495,9 @@ func (b *Builder) printCacheTime(dst *build.Writer, c *cache) {
 
 func (b *Builder) printListData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) {
 	fName := build.StringToHumpName(fType.Name.Name)
-	dName := build.StringToHumpName(typ.Name.Name)
+	dName := b.getPackage(dst, typ.Name) + build.StringToHumpName(typ.Name.Name)
 	if typ != fType {
 		key = "self"
-	} else if "self" == key {
-		dName = fName
 	}
 	w := b.getParamWhere(dst, wFields, true, true, true)
 	dst.AddImports(w.GetImports())
@@ -556,11 +554,9 @@ func (b *Builder) printMapData(dst *build.Writer, key string, typ *ast.DataType,
 		return
 	}
 	fName := build.StringToHumpName(fType.Name.Name)
-	dName := build.StringToHumpName(typ.Name.Name)
+	dName := b.getPackage(dst, typ.Name) + build.StringToHumpName(typ.Name.Name)
 	if typ != fType {
 		key = "self"
-	} else if "self" == key {
-		dName = fName
 	}
 	w := b.getParamWhere(dst, wFields, true, true, true)
 	dst.AddImports(w.GetImports())
@@ -747,10 +743,10 @@ func (b *Builder) printInsertData(dst *build.Writer, typ *ast.DataType, val stri
 
 func (b *Builder) printInsertListData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, fields []*build.DBField, fType *ast.DataType, isCache bool) {
 	name := build.StringToHumpName(fType.Name.Name)
-	dName := build.StringToHumpName(typ.Name.Name)
 	if "self" == key {
-		dName = name
+		typ = fType
 	}
+	dName := b.getPackage(dst, typ.Name) + build.StringToHumpName(typ.Name.Name)
 	dst.Import("context", "")
 	dst.Import("github.com/wskfjtheqian/hbuf_golang/pkg/db", "")
 	dst.Code("func (g " + name + ") DbInsertList(ctx context.Context, val []*" + dName + ") (int64, int64, error) {\n")
@@ -894,14 +890,11 @@ func (b *Builder) printSet(fields []*build.DBField, key string, isNil bool) *bui
 
 func (b *Builder) printGetData(dst *build.Writer, typ *ast.DataType, key string, db *build.DB, wFields []*build.DBField, fields []*build.DBField, fType *ast.DataType, c *cache) {
 	fName := build.StringToHumpName(fType.Name.Name)
-	dName := build.StringToHumpName(typ.Name.Name)
-	if typ == fType {
-		key = "self"
-	} else if "self" == key {
-		dName = fName
-	} else {
-		key = "self"
+	if "self" == key {
+		typ = fType
 	}
+	key = "self"
+	dName := b.getPackage(dst, typ.Name) + build.StringToHumpName(typ.Name.Name)
 
 	w := b.getParamWhere(dst, wFields, false, true, true)
 	dst.AddImports(w.GetImports())
-- 
2.43.0


From 512a09dcbeba0cd2a7c462d736e21d8070f7cafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:03 +0000
Subject: [PATCH 48/91] fix: report db tags that name a table or field that
 does not exist

---
 pkg/build/build.go     |  6 +++-
 pkg/build/database.go  | 66 ++++++++++++++++++++++++++++++++++++++++++
 pkg/golang/database.go |  5 +---
 3 files changed, 72 insertions(+), 5 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 24eec89..b64a3cd 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -183,7 +183,11 @@ func (b *Builder) checkFiles() error {
 	if err != nil {
 		return err
 	}
-	return b.checkBindings()
+	err = b.checkBindings()
+	if err != nil {
+		return err
+	}
+	return b.checkDatabases()
 }
 
 // checkCycles reports a type that inherits from itself. It needs the extends of
diff --git a/pkg/build/database.go b/pkg/build/database.go
index cdc3812..4502580 100644
--- a/pkg/build/database.go
+++ b/pkg/build/database.go
@@ -2,6 +2,7 @@ package build
 
 import (
 	"hbuf/pkg/ast"
+	"regexp"
 	"sort"
 	"strconv"
 	"strings"
@@ -124,3 +125,68 @@ func GetDB(n string, tag []*ast.Tag) []*DB {
 	})
 	return dbs
 }
+
+// ParamRex finds the places of a db text that stand for a field.
+var ParamRex = regexp.MustCompile(`(\?{\w+})|(\${\w+})|\$|\?`)
+
+// checkDatabases checks the tables and fields that db tags name. It needs the
+// types of every file to be resolved.
+func (b *Builder) checkDatabases() error {
+	for _, path := range b.paths() {
+		file := b.pkg.Files[path]
+		for _, spec := range file.Specs {
+			t, ok := spec.(*ast.TypeSpec)
+			if !ok {
+				continue
+			}
+			data, ok := t.Type.(*ast.DataType)
+			if !ok {
+				continue
+			}
+			err := b.checkDatabase(file, data)
+			if err != nil {
+				return ErrorToFileError(err, b.fset)
+			}
+		}
+	}
+	return nil
+}
+
+func (b *Builder) checkDatabase(file *ast.File, data *ast.DataType) error {
+	dbs := GetDB(data.Name.Name, data.Tags)
+	if 0 == len(dbs) {
+		return nil
+	}
+	if 0 < len(dbs[0].Table) {
+		obj := b.GetDataType(file, dbs[0].Table)
+		if nil == obj {
+			return NewError(data.Name.Pos(), "Not find table: "+dbs[0].Table)
+		}
+		table, ok := obj.Decl.(*ast.TypeSpec).Type.(*ast.DataType)
+		if !ok || 0 == len(GetDB(table.Name.Name, table.Tags)) {
+			return NewError(data.Name.Pos(), "Not a valid table: "+dbs[0].Table)
+		}
+	}
+
+	names := map[string]void{}
+	_ = EnumField(data, func(field *ast.Field, data *ast.DataType) error {
+		if 0 < len(GetDB(field.Name.Name, field.Tags)) {
+			names[field.Name.Name] = void{}
+		}
+		return nil
+	})
+	return EnumField(data, func(field *ast.Field, data *ast.DataType) error {
+		for _, db := range GetDB(field.Name.Name, field.Tags) {
+			for _, text := range append(db.Where, db.Set, db.Group, db.Order) {
+				for _, name := range ParamRex.FindAllString(text, -1) {
+					if 2 < len(name) {
+						if _, ok := names[name[2:len(name)-1]]; !ok {
+							return NewError(field.Name.Pos(), "Not find db field: "+name)
+						}
+					}
+				}
+			}
+		}
+		return nil
+	})
+}
diff --git a/pkg/golang/database.go b/pkg/golang/database.go
index b6fd2ce..35ae932 100644
--- a/pkg/golang/database.go
+++ b/pkg/golang/database.go
@@ -4,7 +4,6 @@ import (
 	"hbuf/pkg/ast"
 	"hbuf/pkg/build"
 	"hbuf/pkg/scanner"
-	"regexp"
 	"strconv"
 	"strings"
 )
@@ -414,10 +413,8 @@ func (b *Builder) findField(fields []*build.DBField, name string) *build.DBField
 	return nil
 }
 
-var paramRex = regexp.MustCompile(`(\?{\w+})|(\${\w+})|\$|\?`)
-
 func (b *Builder) printParam(buf *build.Writer, text string, self *build.DBField, fields []*build.DBField, array, tab string) error {
-	match := paramRex.FindAllStringSubmatchIndex(text, -1)
+	match := build.ParamRex.FindAllStringSubmatchIndex(text, -1)
 	buf.Code(tab)
 	if nil != match {
 		var index = 0
-- 
2.43.0


From 93e9bee32a9afa247949b99cdcc320c4a59f5c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:40 +0000
Subject: [PATCH 49/91] fix: check in TypeScript exactly what the formats
 demand

---
 pkg/typescript/typescript.go |  11 ++
 pkg/typescript/verify.go     | 228 ++++++++++++-----------------------
 2 files changed, 88 insertions(+), 151 deletions(-)

diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index 4a63b82..056304d 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -1,6 +1,8 @@
 package ts
 
 import (
+	"bytes"
+	"encoding/json"
 	"go/printer"
 	"hbuf/pkg/ast"
 	"hbuf/pkg/build"
@@ -158,6 +160,15 @@ func (b *Builder) GetDataType(file *ast.File, name string) *ast.Object {
 	return nil
 }
 
+// quote gives the string literal of a text
+func quote(text string) string {
+	buf := bytes.NewBuffer(nil)
+	enc := json.NewEncoder(buf)
+	enc.SetEscapeHTML(false)
+	_ = enc.Encode(text)
+	return strings.TrimSuffix(buf.String(), "\n")
+}
+
 func writerFile(data *build.Writer, out string) error {
 	fc, err := os.Create(out)
 	if err != nil {
diff --git a/pkg/typescript/verify.go b/pkg/typescript/verify.go
index fd244be..84f446f 100644
--- a/pkg/typescript/verify.go
+++ b/pkg/typescript/verify.go
@@ -38,16 +38,15 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 		}
 		dst.Import("element-plus", "type {LocaleContext}")
 		dst.Code("export const verify").Code(dName).Code("_").Code(fName).Code(" = (locale: LocaleContext) => (rule: any, value: any, callback: any): any => {\n")
-		dst.Tab(1).Code("value = '' + value\n")
-		isNull := build.IsNil(field.Type)
-		for i, val := range verify.GetFormat() {
+		first := true
+		for _, val := range verify.GetFormat() {
 			f := build.GetFormat(val.Item.Tags)
 			if nil == f {
 				continue
 			}
 			pName := b.getPackage(dst, val.Enum.Name, "enum")
-			if isNull && 0 == i {
-				dst.Tab(1).Code("if (value == '' || value == 'null' || value == 'undefined') {\n")
+			if first && build.IsNil(field.Type) {
+				dst.Tab(1).Code("if (null == value || '' === value) {\n")
 				if !f.Null {
 					b.printVerifyError(dst, pName, val)
 				} else {
@@ -55,122 +54,58 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 				}
 				dst.Tab(1).Code("}\n")
 			}
-			if build.IsEnum(field.Type) {
-				//dst.Code("\tif 0 < len(i.Get" + fName + "().ToName()) {\n")
-				//dst.Code("\t\treturn &hbuf.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
-				//dst.Code("\t}\n")
-			} else if build.IsMap(field.Type) {
-
-			} else if build.IsArray(field.Type) {
-
-			} else {
-				t := build.GetBaseType(field.Type)
-				switch t {
-				case build.Int8:
-					b.verifyNum(dst, pName, val, f, "-?[0-9]\\\\d*", field.Type, "–128", "127")
-				case build.Int16:
-					b.verifyNum(dst, pName, val, f, "-?[0-9]\\\\d*", field.Type, "-32768", "32767")
-				case build.Int32:
-					b.verifyNum(dst, pName, val, f, "-?[0-9]\\\\d*", field.Type, "-2147483648", "2147483647")
-				case build.Uint8:
-					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "0", "255")
-				case build.Uint16:
-					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "0", "65535")
-				case build.Uint32:
-					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "0", "4294967295")
-				case build.Float, build.Double:
-					b.verifyNum(dst, pName, val, f, "-?[0-9]\\\\d*.\\\\d*|0.\\\\d*[0-9]\\\\d*", field.Type, "", "")
-				case build.Int64:
-					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "-9223372036854775808", "9223372036854775808")
-				case build.Uint64:
-					b.verifyNum(dst, pName, val, f, "[0-9]\\\\d*", field.Type, "0", "18446744073709551615615")
-				case build.Date:
-					dst.Code("\tDateTime? val = DateTime.tryParse(value!);\n")
-					dst.Code("\tif (null == val) {\n")
-					b.printVerifyError(dst, pName, val)
-					dst.Code("\t}\n")
-					if 0 < len(f.Min) || 0 < len(f.Max) {
-						dst.Code("\tif (")
-						if 0 < len(f.Min) {
-							parse, err := time.Parse("2006-01-02T15:04:05Z", f.Min)
-							if err != nil {
-								return err
-							}
-							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " > val.millisecondsSinceEpoch")
-						}
-						if 0 < len(f.Max) {
-							if 0 < len(f.Min) {
-								dst.Code(" || ")
-							}
-							parse, err := time.Parse("2006-01-02T15:04:05Z", f.Max)
-							if err != nil {
-								return err
-							}
-							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " < val.millisecondsSinceEpoch")
-						}
-						dst.Code(") {\n")
-						b.printVerifyError(dst, pName, val)
-						b.printVerifyError(dst, pName, val)
-						dst.Code("\t}\n")
-					}
-				case build.Decimal:
-					if 0 < len(f.Reg) {
-						dst.Code("\tif (!new RegExp(\"" + strings.ReplaceAll(f.Reg, "$", "\\$") + "\").test(value!)) {\n")
-						b.printVerifyError(dst, pName, val)
-						dst.Code("\t}\n")
-					}
-					if i == len(verify.GetFormat())-1 {
-						dst.Code("\tif (!new RegExp(\"-?[0-9]\\\\d*.\\\\d*|0.\\\\d*[0-9]\\\\d*\").test(value")
-						if build.IsNil(field.Type) {
-							dst.Code("!")
-						}
-						dst.Code(")) {\n")
-						b.printVerifyError(dst, pName, val)
-						dst.Code("\t}\n")
-
-						dst.Import("decimal.js", "* as d")
-						dst.Code("\tDecimal? val = Decimal.tryParse(value!);\n")
-						dst.Code("\tif (null == val) {\n")
-						b.printVerifyError(dst, pName, val)
-						dst.Code("\t}\n")
-						if 0 < len(f.Min) || 0 < len(f.Max) {
-							dst.Code("\tif (")
-							if 0 < len(f.Min) {
-								dst.Code("1 == val.compareTo(Decimal.fromInt(" + f.Min + "))")
-							}
-							if 0 < len(f.Max) {
-								if 0 < len(f.Min) {
-									dst.Code(" || ")
-								}
-								dst.Code("-1 == val.compareTo(Decimal.fromInt(" + f.Max + "))")
-							}
-							dst.Code(") {\n")
-							b.printVerifyError(dst, pName, val)
-							dst.Code("\t}\n")
-						}
-					}
-				case build.String:
-					if 0 < len(f.Min) || 0 < len(f.Max) {
-						dst.Code("\tif (")
-						if 0 < len(f.Min) {
-							dst.Code(f.Min + " > (value?.length ?? 0)")
-						}
-						if 0 < len(f.Max) {
-							if 0 < len(f.Min) {
-								dst.Code(" || ")
-							}
-							dst.Code(f.Max + " < (value?.length ?? 0)")
-						}
-						dst.Code(") {\n")
-						b.printVerifyError(dst, pName, val)
-						dst.Code("\t}\n")
+			first = false
+			if build.IsEnum(field.Type) || build.IsMap(field.Type) || build.IsArray(field.Type) {
+				continue
+			}
+			switch build.GetBaseType(field.Type) {
+			case build.Int8:
+				b.verifyNum(dst, pName, val, f, _integer, "-128", "127")
+			case build.Int16:
+				b.verifyNum(dst, pName, val, f, _integer, "-32768", "32767")
+			case build.Int32:
+				b.verifyNum(dst, pName, val, f, _integer, "-2147483648", "2147483647")
+			case build.Int64:
+				b.verifyNum(dst, pName, val, f, _integer, "-9223372036854775808", "9223372036854775807")
+			case build.Uint8:
+				b.verifyNum(dst, pName, val, f, _integer, "0", "255")
+			case build.Uint16:
+				b.verifyNum(dst, pName, val, f, _integer, "0", "65535")
+			case build.Uint32:
+				b.verifyNum(dst, pName, val, f, _integer, "0", "4294967295")
+			case build.Uint64:
+				b.verifyNum(dst, pName, val, f, _integer, "0", "18446744073709551615")
+			case build.Float, build.Double, build.Decimal:
+				b.verifyNum(dst, pName, val, f, _number, "", "")
+			case build.Date:
+				cond := []string{"isNaN(new Date(value).getTime())"}
+				if 0 < len(f.Min) {
+					parse, err := time.Parse("2006-01-02T15:04:05Z", f.Min)
+					if err != nil {
+						return err
 					}
-					if len(f.Reg) > 0 {
-						dst.Code("\tif (!new RegExp(\"" + f.Reg + "\").test(value!)) {\n")
-						b.printVerifyError(dst, pName, val)
-						dst.Code("\t}\n")
+					cond = append(cond, "new Date(value).getTime() < "+strconv.FormatInt(parse.UnixMilli(), 10))
+				}
+				if 0 < len(f.Max) {
+					parse, err := time.Parse("2006-01-02T15:04:05Z", f.Max)
+					if err != nil {
+						return err
 					}
+					cond = append(cond, "new Date(value).getTime() > "+strconv.FormatInt(parse.UnixMilli(), 10))
+				}
+				b.printVerifyCheck(dst, pName, val, cond)
+			case build.String:
+				var cond []string
+				if 0 < len(f.Min) {
+					cond = append(cond, "Array.from('' + value).length < "+f.Min)
 				}
+				if 0 < len(f.Max) {
+					cond = append(cond, "Array.from('' + value).length > "+f.Max)
+				}
+				if 0 < len(f.Reg) {
+					cond = append(cond, "!new RegExp("+quote(f.Reg)+").test('' + value)")
+				}
+				b.printVerifyCheck(dst, pName, val, cond)
 			}
 		}
 		dst.Tab(1).Code("return callback();\n")
@@ -178,52 +113,43 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 		return nil
 	})
 	if err != nil {
-		return err
+		return build.ErrorToFileError(err, b.fSet)
 	}
 	return nil
 }
 
-func (b *Builder) verifyNum(dst *build.Writer, pName string, val *build.VerifyEnum, f *build.Format, reg string, field ast.Type, min, max string) {
-	dst.Tab(1).Code("if (!new RegExp(\"" + reg + "\").test(value")
-	if build.IsNil(field) {
-		dst.Code("!")
-	}
+const (
+	_integer = "/^[-+]?[0-9]+$/"
+	_number  = "/^[-+]?[0-9]+(\\.[0-9]+)?([eE][-+]?[0-9]+)?$/"
+)
 
-	dst.Code(")) {\n")
-	b.printVerifyError(dst, pName, val)
-	dst.Tab(1).Code("}\n")
-	dst.Tab(1).Code("try {\n")
+// verifyNum prints the check of a number: its notation, the range of its type and the range of the format
+func (b *Builder) verifyNum(dst *build.Writer, pName string, val *build.VerifyEnum, f *build.Format, reg string, min, max string) {
 	dst.Import("decimal.js", "* as d")
-	dst.Tab(2).Code("const val = new d.Decimal(value!);\n")
-
-	if 0 < len(min) {
-		dst.Tab(2).Code("if (val.lessThan(new d.Decimal(\"").Code(min).Code("\")) || val.greaterThan(new d.Decimal(\"").Code(max).Code("\"))) {\n")
-		dst.Tab(1)
-		b.printVerifyError(dst, pName, val)
-		dst.Tab(2).Code("}\n")
-	}
-
-	if 0 < len(f.Min) || 0 < len(f.Max) {
-		dst.Tab(2).Code("if (")
-		if 0 < len(f.Min) {
-			dst.Code("new d.Decimal(").Code(f.Min).Code(").greaterThan(val)")
+	cond := []string{"!" + reg + ".test('' + value)"}
+	for _, limit := range []string{min, f.Min} {
+		if 0 < len(limit) {
+			cond = append(cond, "new d.Decimal('' + value).lessThan(\""+limit+"\")")
 		}
-		if 0 < len(f.Max) {
-			if 0 < len(f.Min) {
-				dst.Code(" || ")
-			}
-			dst.Code("new d.Decimal(").Code(f.Max).Code(").lessThan(val)")
+	}
+	for _, limit := range []string{max, f.Max} {
+		if 0 < len(limit) {
+			cond = append(cond, "new d.Decimal('' + value).greaterThan(\""+limit+"\")")
 		}
-		dst.Code(") {\n")
-		b.printVerifyError(dst, pName, val)
-
-		dst.Code("\t}\n")
 	}
+	b.printVerifyCheck(dst, pName, val, cond)
+}
 
-	dst.Tab(1).Code("} catch (e){\n")
+// printVerifyCheck prints the refusal of a value that any of the conditions applies to
+func (b *Builder) printVerifyCheck(dst *build.Writer, pName string, val *build.VerifyEnum, cond []string) {
+	if 0 == len(cond) {
+		return
+	}
+	dst.Tab(1).Code("if (" + strings.Join(cond, " || ") + ") {\n")
 	b.printVerifyError(dst, pName, val)
 	dst.Tab(1).Code("}\n")
 }
+
 func (b *Builder) printVerifyError(dst *build.Writer, pName string, val *build.VerifyEnum) {
 	dst.Tab(2).Code("return callback(new Error(locale.t(").Code(pName).Code(".")
 	dst.Code(build.StringToHumpName(val.Enum.Name.Name)).Code(".")
-- 
2.43.0


From b5754fc4c4497ba87cd328892238211645728ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:58 +0000
Subject: [PATCH 50/91] fix: give the text of every language in full

---
 pkg/build/language.go        | 60 ++++++++++++++++--------------------
 pkg/dart/language.go         | 10 ++++--
 pkg/typescript/language.go   |  2 +-
 pkg/typescript/typescript.go | 11 -------
 pkg/typescript/verify.go     |  2 +-
 5 files changed, 37 insertions(+), 48 deletions(-)

diff --git a/pkg/build/language.go b/pkg/build/language.go
index 4977bc8..88bdfaa 100644
--- a/pkg/build/language.go
+++ b/pkg/build/language.go
@@ -1,9 +1,14 @@
 package build
 
 import (
+	"bytes"
+	"encoding/json"
 	"hbuf/pkg/ast"
 	"regexp"
+	"strconv"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 )
 
 type Language struct {
@@ -39,7 +44,7 @@ func getLanguage(tags []*ast.Tag) map[string]string {
 	lang := make(map[string]string, 0)
 	if nil != val.KV {
 		for _, item := range val.KV {
-			lang[StringToFirstLower(item.Name.Name)] = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
+			lang[StringToFirstLower(item.Name.Name)] = GetText(item.Values[0].Value)
 		}
 	}
 	return lang
@@ -59,38 +64,27 @@ func GetLang(val string, key string, lanMap map[string]string) string {
 	if !regexp.MustCompile(`[a-z0-9]`).MatchString(val) {
 		val = strings.ToLower(val)
 	}
-
-	rex := regexp.MustCompile(`[A-Z_]`)
-	match := rex.FindAllStringSubmatchIndex(val, -1)
-	if nil == match {
-		return strings.ToUpper(val[:1]) + strings.ToLower(val[1:])
-	}
-	var ret string
-	var index = 0
-	for _, item := range match {
-		temp := val[index:item[0]]
-		if 0 == strings.Index(temp, "_") {
-			temp = temp[1:]
-		}
-		if 0 == len(temp) {
-			continue
-		}
-		if 0 == len(ret) {
-			ret += strings.ToUpper(temp[:1])
-			ret += strings.ToLower(temp[1:])
-		} else {
-			ret += " " + strings.ToLower(temp)
-		}
-		index = item[0]
+	ret := strings.TrimSpace(strings.ReplaceAll(StringToUnderlineName(val), "_", " "))
+	if 0 == len(ret) {
+		return val
 	}
-	if index < len(val) {
-		temp := val[index:]
-		if 0 == strings.Index(temp, "_") {
-			temp = temp[1:]
-		}
-		if 0 < len(temp) {
-			ret += " " + strings.ToLower(temp)
-		}
+	first, size := utf8.DecodeRuneInString(ret)
+	return string(unicode.ToUpper(first)) + ret[size:]
+}
+
+// GetText gives the text that a string literal stands for
+func GetText(literal string) string {
+	if text, err := strconv.Unquote(literal); err == nil {
+		return text
 	}
-	return ret
+	return literal[1 : len(literal)-1]
+}
+
+// Quote gives the string literal of a text, in the notation that JSON, TypeScript and Dart share
+func Quote(text string) string {
+	buf := bytes.NewBuffer(nil)
+	enc := json.NewEncoder(buf)
+	enc.SetEscapeHTML(false)
+	_ = enc.Encode(text)
+	return strings.TrimSuffix(buf.String(), "\n")
 }
diff --git a/pkg/dart/language.go b/pkg/dart/language.go
index 836891b..a260e3a 100644
--- a/pkg/dart/language.go
+++ b/pkg/dart/language.go
@@ -3,8 +3,14 @@ package dart
 import (
 	"hbuf/pkg/build"
 	"sort"
+	"strings"
 )
 
+// quote gives the string literal of a text
+func quote(text string) string {
+	return strings.ReplaceAll(build.Quote(text), "$", "\\$")
+}
+
 func printLanguge(dst *build.Writer) {
 	langsKeys := build.GetKeysByMap(dst.GetLangs())
 	sort.Strings(langsKeys)
@@ -72,7 +78,7 @@ func printLanguge(dst *build.Writer) {
 
 		for _, key := range lanKeys {
 			dst.Code("  @override\n")
-			dst.Code("  String get " + key + " => \"" + build.GetLang(key, "____", l.Lang[key]) + "\";\n")
+			dst.Code("  String get " + key + " => " + quote(build.GetLang(key, "____", l.Lang[key])) + ";\n")
 			dst.Code("\n")
 		}
 		dst.Code("}\n")
@@ -84,7 +90,7 @@ func printLanguge(dst *build.Writer) {
 			dst.Code("  const " + keyName + l.Name + "Localizations();\n")
 			for _, f := range lanKeys {
 				dst.Code("  @override\n")
-				dst.Code("  String get " + f + " => \"" + build.GetLang(f, key, l.Lang[f]) + "\";\n")
+				dst.Code("  String get " + f + " => " + quote(build.GetLang(f, key, l.Lang[f])) + ";\n")
 				dst.Code("\n")
 			}
 			dst.Code("}\n")
diff --git a/pkg/typescript/language.go b/pkg/typescript/language.go
index 15c44e0..9d3b712 100644
--- a/pkg/typescript/language.go
+++ b/pkg/typescript/language.go
@@ -24,7 +24,7 @@ func printLanguge(langs map[string]*build.Language, dst *build.Writer) {
 			names := build.GetMapKeys(l.Lang)
 			sort.Strings(names)
 			for _, name := range names {
-				dst.Tab(2).Code(name).Code(": ").Code("\"").Code(l.Lang[name][key]).Code("\",\n")
+				dst.Tab(2).Code(name).Code(": ").Code(build.Quote(build.GetLang(name, key, l.Lang[name]))).Code(",\n")
 			}
 			dst.Tab(1).Code("},\n")
 		}
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index 056304d..4a63b82 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -1,8 +1,6 @@
 package ts
 
 import (
-	"bytes"
-	"encoding/json"
 	"go/printer"
 	"hbuf/pkg/ast"
 	"hbuf/pkg/build"
@@ -160,15 +158,6 @@ func (b *Builder) GetDataType(file *ast.File, name string) *ast.Object {
 	return nil
 }
 
-// quote gives the string literal of a text
-func quote(text string) string {
-	buf := bytes.NewBuffer(nil)
-	enc := json.NewEncoder(buf)
-	enc.SetEscapeHTML(false)
-	_ = enc.Encode(text)
-	return strings.TrimSuffix(buf.String(), "\n")
-}
-
 func writerFile(data *build.Writer, out string) error {
 	fc, err := os.Create(out)
 	if err != nil {
diff --git a/pkg/typescript/verify.go b/pkg/typescript/verify.go
index 84f446f..550e86f 100644
--- a/pkg/typescript/verify.go
+++ b/pkg/typescript/verify.go
@@ -103,7 +103,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 					cond = append(cond, "Array.from('' + value).length > "+f.Max)
 				}
 				if 0 < len(f.Reg) {
-					cond = append(cond, "!new RegExp("+quote(f.Reg)+").test('' + value)")
+					cond = append(cond, "!new RegExp("+build.Quote(f.Reg)+").test('' + value)")
 				}
 				b.printVerifyCheck(dst, pName, val, cond)
 			}
-- 
2.43.0


From 34d9518d37aab43b7ccebaa3eebbfde4ba6130a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:29 +0000
Subject: [PATCH 51/91] fix: type the keys of a map keyed by bool in TypeScript
 as the texts they are

---
 pkg/typescript/typescript.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index 4a63b82..d8fdd3a 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -254,6 +254,8 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool, isR
 					dst.Code("string")
 				} else if build.Int64 == build.BaseType((expr.(*ast.Ident).Name)) || build.Uint64 == build.BaseType((expr.(*ast.Ident).Name)) {
 					dst.Code("string")
+				} else if build.Bool == build.BaseType((expr.(*ast.Ident).Name)) {
+					dst.Code("string")
 				} else if build.Date == build.BaseType((expr.(*ast.Ident).Name)) {
 					dst.Code("number")
 				} else {
-- 
2.43.0


From 459f17152c27074d0426b02f32552ec27254f599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:33 +0000
Subject: [PATCH 52/91] fix: generate valid TypeScript for the inputs of data
 members and of single dates

---
 pkg/typescript/ui.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index 85ba27d..ac8a2da 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -396,6 +396,8 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 	case *ast.VarType:
 		t := expr.(*ast.VarType)
 		b.printFormString(dst, name, t.Type(), t.Empty, digit, format)
+	default:
+		dst.Code(name)
 	}
 }
 
@@ -477,7 +479,7 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 				} else if "month" == form.form {
 					dst.Code("_ctx.$timeToUtc($event)")
 				} else if "dates" == form.form {
-					dst.Code("($event?.length ?? 0 == 0) ? null :_ctx.$timeToUtc($event[0])")
+					dst.Code("(($event as Date[] | null)?.length ?? 0) == 0 ? null : _ctx.$timeToUtc(($event as Date[])[0])")
 				} else if "year" == form.form {
 					dst.Code("_ctx.$timeToUtc($event)")
 				} else {
-- 
2.43.0


From 054b5773ccb201dffb6079eac2f872bc03beef59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:22 +0000
Subject: [PATCH 53/91] fix: give the input of a nullable password one
 clearable attribute

---
 pkg/typescript/ui.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index ac8a2da..733d9e9 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -587,9 +587,6 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			if isNull {
 				dst.Tab(7).Code("clearable\n")
 			}
-			if isNull {
-				dst.Tab(7).Code("clearable\n")
-			}
 			if form.onlyRead {
 				dst.Tab(7).Code("disabled\n")
 			}
-- 
2.43.0


From 117fd350c48ead13e71eaf3d671d1b841f86882c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 54/91] fix: quote the date format of a column in TypeScript

---
 pkg/typescript/ui.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index 733d9e9..119253f 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -282,7 +282,7 @@ func (b *Builder) printToString(dst *build.Writer, name string, expr ast.Expr, e
 				if 0 == len(format) {
 					format = "yyyy/MM/dd HH:mm:ss"
 				}
-				dst.Code("_ctx.$fd(").Code(name).Code(",\"").Code(format).Code("\")")
+				dst.Code("_ctx.$fd(").Code(name).Code(",").Code(build.Quote(format)).Code(")")
 			case build.Decimal:
 				if empty {
 					dst.Code("null == ").Code(name).Code(" ? \"\" : ")
-- 
2.43.0


From 08ac79b4f67d3d7db7556c90cb026591d93ab2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:22 +0000
Subject: [PATCH 55/91] fix: default a member to the first item of an enum
 without item 0 in TypeScript

---
 pkg/typescript/data.go       |  2 +-
 pkg/typescript/typescript.go | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/typescript/data.go b/pkg/typescript/data.go
index 19e1257..9944329 100644
--- a/pkg/typescript/data.go
+++ b/pkg/typescript/data.go
@@ -200,7 +200,7 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 					if empty {
 						dst.Code("null == " + name + " ? null : " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(Number(" + v + ").valueOf())")
 					} else {
-						dst.Code("null == " + name + " ? " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(0) : " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(Number(" + v + ").valueOf())")
+						dst.Code("null == " + name + " ? " + p + "." + build.StringToHumpName(t.Name) + enumDefault(t) + " : " + p + "." + build.StringToHumpName(t.Name) + ".valueOf(Number(" + v + ").valueOf())")
 					}
 				}
 			} else if ast.Data == t.Obj.Kind {
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index d8fdd3a..3f21e51 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -326,6 +326,17 @@ func (b *Builder) getPackage(dst *build.Writer, expr ast.Expr, s string) string
 	return p[5:]
 }
 
+// enumDefault selects the item of an enum that a member has unless told otherwise: 0, or the first one
+func enumDefault(ident *ast.Ident) string {
+	enum := ident.Obj.Decl.(*ast.TypeSpec).Type.(*ast.EnumType)
+	for _, item := range enum.Items {
+		if id, err := strconv.ParseInt(item.Id.Value, 0, 64); err == nil && 0 == id {
+			return ".valueOf(0)"
+		}
+	}
+	return ".values[0]"
+}
+
 func (b *Builder) printDefault(dst *build.Writer, expr ast.Expr, notEmpty bool) string {
 	switch expr.(type) {
 	case *ast.Ident:
@@ -336,7 +347,7 @@ func (b *Builder) printDefault(dst *build.Writer, expr ast.Expr, notEmpty bool)
 				dst.Code(pkg)
 				dst.Code(".")
 				dst.Code(build.StringToHumpName(expr.(*ast.Ident).Name))
-				dst.Code(".valueOf(0)")
+				dst.Code(enumDefault(t))
 			} else {
 				dst.Code("new ")
 				pkg := b.getPackage(dst, expr, "")
-- 
2.43.0


From 51db42a77aa8dda18c6f5721b656100bb7f1269d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 56/91] fix: write null values of a map in TypeScript

---
 pkg/typescript/data.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/typescript/data.go b/pkg/typescript/data.go
index 9944329..3d760ff 100644
--- a/pkg/typescript/data.go
+++ b/pkg/typescript/data.go
@@ -347,14 +347,14 @@ func (b *Builder) printToJson(dst *build.Writer, key string, name string, expr a
 					dst.Code(name)
 				} else {
 					if empty {
-						dst.Code(name + "?.value")
+						dst.Code(name + "?.value ?? null")
 					} else {
 						dst.Code(name + ".value")
 					}
 				}
 			} else if ast.Data == t.Obj.Kind {
 				if empty {
-					dst.Code(name + "?.toJson()")
+					dst.Code(name + "?.toJson() ?? null")
 				} else {
 					dst.Code(name + ".toJson()")
 				}
@@ -370,7 +370,7 @@ func (b *Builder) printToJson(dst *build.Writer, key string, name string, expr a
 					dst.Code(name)
 				} else {
 					if empty {
-						dst.Code(name + "?.toString()")
+						dst.Code(name + "?.toString() ?? null")
 					} else {
 						dst.Code(name + ".toString()")
 					}
@@ -381,7 +381,7 @@ func (b *Builder) printToJson(dst *build.Writer, key string, name string, expr a
 					dst.Code(name)
 				} else {
 					if empty {
-						dst.Code(name + "?.getTime()")
+						dst.Code(name + "?.getTime() ?? null")
 					} else {
 						dst.Code(name + ".getTime()")
 					}
@@ -389,7 +389,7 @@ func (b *Builder) printToJson(dst *build.Writer, key string, name string, expr a
 
 			case build.Decimal:
 				if empty {
-					dst.Code(name + "?.toString()")
+					dst.Code(name + "?.toString() ?? null")
 				} else {
 					dst.Code(name + ".toString()")
 				}
-- 
2.43.0


From ebceaf3b8bbd2a5dbd129dc024966e4aaa668120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 57/91] fix: read uint64 members as unsigned numbers in
 TypeScript

---
 pkg/typescript/data.go       | 8 ++++++--
 pkg/typescript/typescript.go | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/typescript/data.go b/pkg/typescript/data.go
index 3d760ff..eec999a 100644
--- a/pkg/typescript/data.go
+++ b/pkg/typescript/data.go
@@ -229,10 +229,14 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 					}
 				} else {
 					dst.Import("long", "Long")
+					unsigned := ""
+					if build.Uint64 == build.BaseType(t.Name) {
+						unsigned = ", true"
+					}
 					if empty {
-						dst.Code("null == " + name + " ? null : Long.fromString(" + v + ".toString())")
+						dst.Code("null == " + name + " ? null : Long.fromString(" + v + ".toString()" + unsigned + ")")
 					} else {
-						dst.Code("null == " + name + " ? Long.ZERO : Long.fromString(" + v + ".toString())")
+						dst.Code("null == " + name + " ? " + _typesValue[build.BaseType(t.Name)] + " : Long.fromString(" + v + ".toString()" + unsigned + ")")
 					}
 				}
 			case build.Float, build.Double:
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index 3f21e51..f60fcc4 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -20,7 +20,7 @@ var _types = map[build.BaseType]string{
 
 var _typesValue = map[build.BaseType]string{
 	build.Int8: "0", build.Int16: "0", build.Int32: "0", build.Int64: "Long.ZERO", build.Uint8: "0",
-	build.Uint16: "0", build.Uint32: "0", build.Uint64: "Long.ZERO", build.Bool: "false", build.Float: "0.0",
+	build.Uint16: "0", build.Uint32: "0", build.Uint64: "Long.UZERO", build.Bool: "false", build.Float: "0.0",
 	build.Double: "0.0", build.String: "\"\"", build.Date: "new Date()", build.Decimal: "new d.Decimal(0)",
 }
 
-- 
2.43.0


From 332d7fdd2763dba64f914e4aac73cb91bae3d834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:16 +0000
Subject: [PATCH 58/91] fix: name the outer Java interfaces after the file

---
 pkg/java/java.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/java/java.go b/pkg/java/java.go
index 7ddfdd5..ce74032 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -186,9 +186,11 @@ func (b *Builder) Node(dst *JavaWriter, fset *token.FileSet, node interface{}) e
 	dst.SetPath(file)
 	dst.SetPackages(val.Value.Value[1 : len(val.Value.Value)-1])
 
-	dst.data.Code("public interface UserData {\n")
-	dst.server.Code("public interface UserServer {\n")
-	dst.enum.Code("public interface UserEnum {\n")
+	_, name := filepath.Split(file.Path)
+	name = build.StringToHumpName(strings.TrimSuffix(name, ".hbuf"))
+	dst.data.Code("public interface " + name + "Data {\n")
+	dst.server.Code("public interface " + name + "Server {\n")
+	dst.enum.Code("public interface " + name + "Enum {\n")
 	for _, s := range file.Specs {
 		switch s.(type) {
 		case *ast.ImportSpec:
-- 
2.43.0


From 2d98debccbbb3a7755cc2e49dc5a5e01e34cb877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:18 +0000
Subject: [PATCH 59/91] fix: spell the Java Override annotation right

---
 pkg/java/data.go   | 4 ++--
 pkg/java/server.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/java/data.go b/pkg/java/data.go
index 10b5e5c..7addd9a 100644
--- a/pkg/java/data.go
+++ b/pkg/java/data.go
@@ -27,7 +27,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 		}
 		isSuper := build.CheckSuperField(field.Name.Name, typ)
 		if isSuper {
-			dst.Code("\t@override\n")
+			dst.Code("\t@Override\n")
 		}
 		dst.Code("\t\t")
 		b.printType(dst, field.Type, false)
@@ -38,7 +38,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 			dst.Code("\t/// Set " + field.Doc.Line())
 		}
 		if isSuper {
-			dst.Code("\t@override\n")
+			dst.Code("\t@Override\n")
 		}
 		dst.Code("\t\tvoid set")
 		dst.Code(build.StringToHumpName(field.Name.Name) + "(")
diff --git a/pkg/java/server.go b/pkg/java/server.go
index acc55dc..3ef88c3 100644
--- a/pkg/java/server.go
+++ b/pkg/java/server.go
@@ -31,7 +31,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 			dst.Code("///" + method.Doc.Line())
 		}
 		if build.CheckSuperMethod(method.Name.Name, typ) {
-			dst.Code("\t@override\n")
+			dst.Code("\t@Override\n")
 		}
 		dst.Code("\t\tCompletableFuture<")
 		b.printType(dst, method.Result.Type(), false)
-- 
2.43.0


From 12ea07d966846625a1a38d528d7c6be5c2fbe8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 60/91] fix: import BigInteger where Java uses it

---
 pkg/java/java.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/java/java.go b/pkg/java/java.go
index ce74032..7bb38c8 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -233,7 +233,7 @@ func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool) {
 				dst.Import("java.math.BigDecimal", "")
 			} else if build.Date == build.BaseType((expr.(*ast.Ident).Name)) {
 				dst.Import("java.util.Date", "")
-			} else if build.Int64 == build.BaseType((expr.(*ast.Ident).Name)) {
+			} else if build.Uint64 == build.BaseType((expr.(*ast.Ident).Name)) {
 				dst.Import("java.math.BigInteger", "")
 			}
 			if notEmpty {
-- 
2.43.0


From 6325bc5be54bcadd33e29ec02d8adcbbf302985a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 61/91] fix: return Void from Java methods without a result

---
 pkg/java/server.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/pkg/java/server.go b/pkg/java/server.go
index 3ef88c3..a157294 100644
--- a/pkg/java/server.go
+++ b/pkg/java/server.go
@@ -34,7 +34,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 			dst.Code("\t@Override\n")
 		}
 		dst.Code("\t\tCompletableFuture<")
-		b.printType(dst, method.Result.Type(), false)
+		b.printResult(dst, method)
 		dst.Code("> " + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
 		b.printType(dst, method.Param, false)
@@ -44,6 +44,14 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("\t}\n\n")
 }
 
+func (b *Builder) printResult(dst *build.Writer, method *ast.FuncType) {
+	if "void" == method.Result.Type().(*ast.Ident).Name {
+		dst.Code("Void")
+	} else {
+		b.printType(dst, method.Result.Type(), false)
+	}
+}
+
 func (b *Builder) printServerClient(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("\tclass " + build.StringToHumpName(typ.Name.Name) + "Client extends Server.ClientRouter implements " + build.StringToHumpName(typ.Name.Name))
 
@@ -66,7 +74,7 @@ func (b *Builder) printServerClient(dst *build.Writer, typ *ast.ServerType) {
 	_ = build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
 		dst.Code("\t\t@Override\n")
 		dst.Code("\t\tpublic CompletableFuture<")
-		b.printType(dst, method.Result.Type(), false)
+		b.printResult(dst, method)
 		dst.Code("> " + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
 		b.printType(dst, method.Param, false)
@@ -80,11 +88,15 @@ func (b *Builder) printServerClient(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("0 << 32 | " + method.Id.Value)
 		dst.Code(", ")
 		dst.Code(build.StringToFirstLower(method.ParamName.Name))
-		dst.Code(", (data) -> Data.formJson.invoke(new String(data), ")
-		b.printType(dst, method.Result.Type(), false)
-		dst.Code("Impl.class), (data)-> new ")
-		b.printType(dst, method.Result.Type(), false)
-		dst.Code("Impl().formData(data));\n")
+		if "void" == method.Result.Type().(*ast.Ident).Name {
+			dst.Code(", null, null);\n")
+		} else {
+			dst.Code(", (data) -> Data.formJson.invoke(new String(data), ")
+			b.printType(dst, method.Result.Type(), false)
+			dst.Code("Impl.class), (data)-> new ")
+			b.printType(dst, method.Result.Type(), false)
+			dst.Code("Impl().formData(data));\n")
+		}
 
 		dst.Code("\t\t}\n\n")
 		return nil
-- 
2.43.0


From 21d1aeb7766da4d8b6974f8de800414fa30e11df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 62/91] fix: keep Dart and sample code out of Java enums

---
 pkg/java/enum.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/pkg/java/enum.go b/pkg/java/enum.go
index ed788a3..c297dd6 100644
--- a/pkg/java/enum.go
+++ b/pkg/java/enum.go
@@ -11,10 +11,6 @@ func (b *Builder) printEnumCode(dst *build.Writer, typ *ast.EnumType) {
 
 func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	enumName := build.StringToHumpName(typ.Name.Name)
-	_, isUi := build.GetTag(typ.Tags, "ui")
-	if isUi {
-		b.getPackage(dst, typ.Name, "ui")
-	}
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
 		dst.Code("///" + typ.Doc.Line())
 	}
@@ -32,8 +28,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	dst.Code("\t\tpublic boolean equals(Object o) {\n")
 	dst.Code("\t\t\tif (this == o) return true;\n")
 	dst.Code("\t\t\tif (o == null || getClass() != o.getClass()) return false;\n")
-	dst.Code("\t\t\tTest test = (Test) o;\n")
-	dst.Code("\t\t\treturn value == test.value;\n")
+	dst.Code("\t\t\treturn value == ((" + enumName + ") o).value;\n")
 	dst.Code("\t\t}\n\n")
 
 	dst.Code("\t\t@Override\n")
@@ -65,9 +60,6 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
 		dst.Code("\t\tstatic final " + enumName + " " + itemName + " = new " + enumName + "(" + item.Id.Value + ", \"" + itemName + "\"")
-		if isUi {
-			dst.Code(", (context) => " + enumName + "Localizations.of(context)." + itemName)
-		}
 		dst.Code(");\n")
 	}
 	dst.Code("\n")
-- 
2.43.0


From cb616364b340e0bb0172c52f732e9e264ea88d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 63/91] fix: look Java enum items up by equal names

---
 pkg/java/enum.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/java/enum.go b/pkg/java/enum.go
index c297dd6..0f1d872 100644
--- a/pkg/java/enum.go
+++ b/pkg/java/enum.go
@@ -42,16 +42,16 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	dst.Code("\t\t\t\t\treturn item;\n")
 	dst.Code("\t\t\t\t}\n")
 	dst.Code("\t\t\t}\n")
-	dst.Code("\t\t\tthrow new RuntimeException(\"Get Test by value error, value=\" + value);\n")
+	dst.Code("\t\t\tthrow new RuntimeException(\"Get " + enumName + " by value error, value=\" + value);\n")
 	dst.Code("\t\t}\n\n")
 
 	dst.Code("\t\tpublic static " + enumName + " nameOf(String name) {\n")
 	dst.Code("\t\t\tfor (" + enumName + " item : values) {\n")
-	dst.Code("\t\t\t\tif (item.name == name) {\n")
+	dst.Code("\t\t\t\tif (item.name.equals(name)) {\n")
 	dst.Code("\t\t\t\t\treturn item;\n")
 	dst.Code("\t\t\t\t}\n")
 	dst.Code("\t\t\t}\n")
-	dst.Code("\t\t\tthrow new RuntimeException(\"Get Test by name error, name=\" + name);\n")
+	dst.Code("\t\t\tthrow new RuntimeException(\"Get " + enumName + " by name error, name=\" + name);\n")
 	dst.Code("\t\t}\n\n")
 
 	for _, item := range typ.Items {
-- 
2.43.0


From 0ed4641eba14abe09d877115764fe959f145cfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:27 +0000
Subject: [PATCH 64/91] fix: import Java types from their own file's package

---
 pkg/java/java.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/java/java.go b/pkg/java/java.go
index 7bb38c8..77ea949 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -272,7 +272,11 @@ func (b *Builder) getPackage(dst *build.Writer, expr ast.Expr, s string) string
 	}
 
 	_, name := filepath.Split(file.(*ast.File).Path)
-	name = dst.Packages + "." + build.StringToHumpName(strings.TrimSuffix(name, ".hbuf"))
+	packages := dst.Packages
+	if val, ok := file.(*ast.File).Packages["java"]; ok {
+		packages = val.Value.Value[1 : len(val.Value.Value)-1]
+	}
+	name = packages + "." + build.StringToHumpName(strings.TrimSuffix(name, ".hbuf"))
 	if 0 < len(s) {
 		name = name + "." + s + ".dart"
 	} else {
-- 
2.43.0


From 1d4a3c2c4ca365cd34dc1603a1fc0d8d0f21b6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 65/91] fix: copy the members in the Java copy method

---
 pkg/java/data.go | 101 ++++++++++++++++++++++-------------------------
 1 file changed, 47 insertions(+), 54 deletions(-)

diff --git a/pkg/java/data.go b/pkg/java/data.go
index 7addd9a..296ee39 100644
--- a/pkg/java/data.go
+++ b/pkg/java/data.go
@@ -87,6 +87,10 @@ func (b *Builder) printDataEntity(dst *build.Writer, typ *ast.DataType) {
 	dst.Code("\t\t@Override\n")
 	dst.Code("\t\tpublic " + build.StringToHumpName(typ.Name.Name) + " copy(){\n")
 	dst.Code("\t\t\t" + build.StringToHumpName(typ.Name.Name) + "Impl ret = new " + build.StringToHumpName(typ.Name.Name) + "Impl();\n")
+	_ = build.EnumField(typ, func(field *ast.Field, data *ast.DataType) error {
+		b.printCopyField(dst, field)
+		return nil
+	})
 	dst.Code("\t\t\treturn ret;\n")
 	dst.Code("\t\t}\n\n")
 
@@ -103,65 +107,54 @@ func (b *Builder) printDataEntity(dst *build.Writer, typ *ast.DataType) {
 	dst.Code("\t}\n\n")
 }
 
-func (b *Builder) printCopy(dst *build.Writer, name string, expr ast.Expr, data *ast.DataType, empty bool) {
-	switch expr.(type) {
+func (b *Builder) printCopy(dst *build.Writer, name string, expr ast.Expr) {
+	switch t := expr.(type) {
+	case *ast.VarType:
+		b.printCopy(dst, name, t.Type())
 	case *ast.Ident:
-		t := expr.(*ast.Ident)
-		if nil != t.Obj {
-			if ast.Enum == t.Obj.Kind {
-				dst.Code(name)
-			} else if ast.Data == t.Obj.Kind {
-				if empty {
-					dst.Code(name + "?.copy()")
-				} else {
-					dst.Code(name + ".copy()")
-				}
-			} else {
-				dst.Code(name)
-			}
+		if nil != t.Obj && ast.Data == t.Obj.Kind {
+			dst.Code("null == " + name + " ? null : " + name + ".copy()")
+		} else if nil == t.Obj && build.Date == build.BaseType(t.Name) {
+			dst.Code("null == " + name + " ? null : new Date(" + name + ".getTime())")
 		} else {
-			switch build.BaseType(expr.(*ast.Ident).Name) {
-			case build.Decimal:
-				if empty {
-					dst.Code("null == " + name + " ? null : Decimal.fromJson(" + name + "!.toJson())")
-				} else {
-					dst.Code("Decimal.fromJson(" + name + ".toJson())")
-				}
-			default:
-				dst.Code(name)
-			}
+			dst.Code(name)
 		}
+	}
+}
+
+func (b *Builder) printCopyField(dst *build.Writer, field *ast.Field) {
+	name := build.StringToFirstLower(field.Name.Name)
+	switch t := field.Type.(type) {
 	case *ast.ArrayType:
-		t := expr.(*ast.ArrayType)
-		empty = t.IsEmpty()
-		if empty {
-			dst.Code(name + "?.map((temp) => ")
-			b.printCopy(dst, "temp", t.VType, data, empty)
-			dst.Code(").toList()")
-		} else {
-			dst.Code(name + ".map((temp) => ")
-			b.printCopy(dst, "temp", t.VType, data, empty)
-			dst.Code(").toList()")
-		}
+		dst.Import("java.util.ArrayList", "")
+		dst.Code("\t\t\tif (null != this." + name + ") {\n")
+		dst.Code("\t\t\t\tret." + name + " = new ArrayList<>();\n")
+		dst.Code("\t\t\t\tfor (")
+		b.printType(dst, t.VType, false)
+		dst.Code(" item : this." + name + ") {\n")
+		dst.Code("\t\t\t\t\tret." + name + ".add(")
+		b.printCopy(dst, "item", t.VType)
+		dst.Code(");\n")
+		dst.Code("\t\t\t\t}\n")
+		dst.Code("\t\t\t}\n")
 	case *ast.MapType:
-		t := expr.(*ast.MapType)
-		empty = t.IsEmpty()
-		if empty {
-			dst.Code(name + "?.map((key,value) => MapEntry(")
-			b.printCopy(dst, "key", t.Key, data, empty)
-			dst.Code(",")
-			b.printCopy(dst, "value", t.Key, data, empty)
-			dst.Code(")")
-		} else {
-			dst.Code(name + ".map((key,value) => MapEntry(")
-			b.printCopy(dst, "key", t.Key, data, empty)
-			dst.Code(",")
-			b.printCopy(dst, "value", t.Key, data, empty)
-			dst.Code("))")
-		}
-	case *ast.VarType:
-		t := expr.(*ast.VarType)
-		b.printCopy(dst, name, t.Type(), data, t.Empty)
+		dst.Import("java.util.LinkedHashMap", "")
+		dst.Code("\t\t\tif (null != this." + name + ") {\n")
+		dst.Code("\t\t\t\tret." + name + " = new LinkedHashMap<>();\n")
+		dst.Code("\t\t\t\tfor (Map.Entry<")
+		b.printType(dst, t.Key, false)
+		dst.Code(", ")
+		b.printType(dst, t.VType, false)
+		dst.Code("> item : this." + name + ".entrySet()) {\n")
+		dst.Code("\t\t\t\t\tret." + name + ".put(item.getKey(), ")
+		b.printCopy(dst, "item.getValue()", t.VType)
+		dst.Code(");\n")
+		dst.Code("\t\t\t\t}\n")
+		dst.Code("\t\t\t}\n")
+	default:
+		dst.Code("\t\t\tret." + name + " = ")
+		b.printCopy(dst, "this."+name, field.Type)
+		dst.Code(";\n")
 	}
 }
 
-- 
2.43.0


From 0b8ddecaa7134e4449bf295e1612d13f4fa8a228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 66/91] fix: import the bases of Java types

---
 pkg/java/data.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/java/data.go b/pkg/java/data.go
index 296ee39..dcf4b62 100644
--- a/pkg/java/data.go
+++ b/pkg/java/data.go
@@ -163,6 +163,7 @@ func (b *Builder) printExtend(dst *build.Writer, extends []*ast.Extends, start b
 		if 0 != i || start {
 			dst.Code(", ")
 		}
+		b.getPackage(dst, v.Name, "")
 		dst.Code(build.StringToHumpName(v.Name.Name))
 	}
 }
-- 
2.43.0


From fbc43fa519e59215e4d60ff0335e595d964fc417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 67/91] fix: send inherited methods under the server's own name

---
 pkg/dart/server.go       | 4 ++--
 pkg/java/server.go       | 2 +-
 pkg/typescript/server.go | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/dart/server.go b/pkg/dart/server.go
index 74e1bb4..c1af121 100644
--- a/pkg/dart/server.go
+++ b/pkg/dart/server.go
@@ -70,7 +70,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("    return invoke<")
 		b.printType(dst, method.Result.Type(), false)
 		dst.Code(">(\"")
-		dst.Code(build.StringToUnderlineName(server.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
+		dst.Code(build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
 		dst.Code("\", ")
 		//TODO dst.Code(server.Id.Value + " << 32 | " + method.Id.Value)
 		dst.Code("0 << 32 | " + method.Id.Value)
@@ -114,7 +114,7 @@ func (b *Builder) printServerRouter(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("  " + build.StringToHumpName(typ.Name.Name) + "Router(this.server){\n")
 	dst.Code("    _invokeNames = {\n")
 	_ = build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
-		dst.Code("      \"" + build.StringToUnderlineName(server.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\": ServerInvoke(\n")
+		dst.Code("      \"" + build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\": ServerInvoke(\n")
 		dst.Code("        toData: (List<int> buf) async {\n")
 		dst.Code("          return ")
 		b.printType(dst, method.Param.Type(), false)
diff --git a/pkg/java/server.go b/pkg/java/server.go
index a157294..7296e0b 100644
--- a/pkg/java/server.go
+++ b/pkg/java/server.go
@@ -82,7 +82,7 @@ func (b *Builder) printServerClient(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code(", Server.Context ctx) throws Exception {\n")
 
 		dst.Code("\t\t\treturn invoke(\"")
-		dst.Code(build.StringToUnderlineName(server.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
+		dst.Code(build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
 		dst.Code("\", ")
 		//TODO dst.Code(server.Id.Value + " << 32 | " + method.Id.Value)
 		dst.Code("0 << 32 | " + method.Id.Value)
diff --git a/pkg/typescript/server.go b/pkg/typescript/server.go
index 63257e0..1d3457b 100644
--- a/pkg/typescript/server.go
+++ b/pkg/typescript/server.go
@@ -95,7 +95,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 			b.printType(dst, method.Result.Type(), false, false)
 		}
 		dst.Code(">(\"")
-		dst.Code(build.StringToUnderlineName(server.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
+		dst.Code(build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
 		dst.Code("\", ")
 		dst.Code("0 << 32 | " + method.Id.Value)
 		dst.Code(", ")
@@ -139,7 +139,7 @@ func (b *Builder) printServerRouter(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("\t\tthis.server = server\n")
 	dst.Code("\t\tthis.invoke = {\n")
 	err := build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
-		dst.Code("\t\t\t\"" + build.StringToUnderlineName(server.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\": {\n")
+		dst.Code("\t\t\t\"" + build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name) + "\": {\n")
 		dst.Code("\t\t\t\tformData(data: BinaryData | Record<string, any>): h.Data {\n")
 		dst.Code("\t\t\t\t\treturn ")
 		b.printType(dst, method.Param.Type(), false, false)
-- 
2.43.0


From d1bf52bd5873ef021247dc6564e7f17d0dca4da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 68/91] fix: give default servers the methods they inherit
 through several bases

---
 pkg/golang/server.go | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/pkg/golang/server.go b/pkg/golang/server.go
index 37b590f..4a1fd44 100644
--- a/pkg/golang/server.go
+++ b/pkg/golang/server.go
@@ -117,7 +117,46 @@ func (b *Builder) printServerDefault(dst *build.Writer, typ *ast.ServerType) err
 		}
 		dst.Code("}\n\n")
 	}
-	return nil
+	return b.printSharedMethods(dst, typ)
+}
+
+// printSharedMethods declares the methods that a default server inherits through several bases, of which Go promotes none.
+func (b *Builder) printSharedMethods(dst *build.Writer, typ *ast.ServerType) error {
+	own := map[string]bool{}
+	for _, method := range typ.Methods {
+		own[method.Name.Name] = true
+	}
+	first := map[string]*ast.Ident{}
+	count := map[string]int{}
+	for _, extend := range typ.Extends {
+		base := extend.Name.Obj.Decl.(*ast.TypeSpec).Type.(*ast.ServerType)
+		_ = build.EnumMethod(base, func(method *ast.FuncType, server *ast.ServerType) error {
+			if 0 == count[method.Name.Name] {
+				first[method.Name.Name] = extend.Name
+			}
+			count[method.Name.Name]++
+			return nil
+		})
+	}
+	return build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
+		if own[method.Name.Name] || count[method.Name.Name] < 2 {
+			return nil
+		}
+		name := build.StringToHumpName(method.Name.Name)
+		param := build.StringToFirstLower(method.ParamName.Name)
+		dst.Code("func (s *Default" + build.StringToHumpName(typ.Name.Name) + ") " + name + "(ctx context.Context, " + param + " *")
+		b.printType(dst, method.Param, true)
+		if method.Result.Type().(*ast.Ident).Name == "void" {
+			dst.Code(") error {\n")
+		} else {
+			dst.Code(") (*")
+			b.printType(dst, method.Result.Type(), true)
+			dst.Code(", error) {\n")
+		}
+		dst.Code("\treturn s.Default" + build.StringToHumpName(first[method.Name.Name].Name) + "." + name + "(ctx, " + param + ")\n")
+		dst.Code("}\n\n")
+		return nil
+	})
 }
 
 func (b *Builder) printBinding(dst *build.Writer, method *ast.FuncType, bind *build.Binding, isSub bool) error {
-- 
2.43.0


From 9791487eb82b8c9216e42fdad4a776e525fe0506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 69/91] fix: declare members that a Go type inherits through
 several bases

---
 pkg/golang/data.go | 54 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 51 insertions(+), 3 deletions(-)

diff --git a/pkg/golang/data.go b/pkg/golang/data.go
index c3750bb..2a75ac4 100644
--- a/pkg/golang/data.go
+++ b/pkg/golang/data.go
@@ -26,8 +26,9 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 	nameLen := 0
 	typLen := 0
 	tagLen := 0
-	fields := make([]dataField, len(typ.Fields.List))
-	for i, field := range typ.Fields.List {
+	members := append(typ.Fields.List[:len(typ.Fields.List):len(typ.Fields.List)], sharedFields(typ)...)
+	fields := make([]dataField, len(members))
+	for i, field := range members {
 		temp := build.NewWriter()
 		temp.Packages = dst.Packages
 		b.printType(temp, field.Type, true)
@@ -76,7 +77,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 	dst.Code("\treturn json.Unmarshal(data, g)\n")
 	dst.Code("}\n\n")
 
-	for _, field := range typ.Fields.List {
+	for _, field := range members {
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
 			dst.Code("// Get" + build.StringToHumpName(field.Name.Name) + " Get " + field.Doc.Line())
 		}
@@ -111,6 +112,53 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 	}
 }
 
+// sharedFields lists the members that typ inherits through several bases at the same depth. Go promotes none of them,
+// so that typ must declare them itself.
+func sharedFields(typ *ast.DataType) []*ast.Field {
+	var ret []*ast.Field
+	seen := map[string]bool{}
+	for _, field := range typ.Fields.List {
+		seen[build.StringToHumpName(field.Name.Name)] = true
+	}
+	level := map[*ast.DataType]int{typ: 1}
+	order := []*ast.DataType{typ}
+	for 0 < len(order) {
+		next := map[*ast.DataType]int{}
+		var bases []*ast.DataType
+		for _, data := range order {
+			for _, extend := range data.Extends {
+				base := extend.Name.Obj.Decl.(*ast.TypeSpec).Type.(*ast.DataType)
+				if 0 == next[base] {
+					bases = append(bases, base)
+				}
+				if next[base] += level[data]; 2 < next[base] {
+					next[base] = 2
+				}
+			}
+		}
+		count := map[string]int{}
+		var found []*ast.Field
+		for _, base := range bases {
+			for _, field := range append(base.Fields.List[:len(base.Fields.List):len(base.Fields.List)], sharedFields(base)...) {
+				name := build.StringToHumpName(field.Name.Name)
+				if 0 == count[name] && !seen[name] {
+					found = append(found, field)
+				}
+				count[name] += next[base]
+			}
+		}
+		for _, field := range found {
+			name := build.StringToHumpName(field.Name.Name)
+			seen[name] = true
+			if 1 < count[name] {
+				ret = append(ret, field)
+			}
+		}
+		level, order = next, bases
+	}
+	return ret
+}
+
 func (b *Builder) printDefault(dst *build.Writer, expr ast.Expr) {
 	switch expr.(type) {
 	case *ast.Ident:
-- 
2.43.0


From d7330ed3a450827e6bd431f01a4f7d1772290daa Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:45:54 +0000
Subject: [PATCH 70/91] fix: give Dart methods without a result the type void

---
 pkg/dart/server.go | 53 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 14 deletions(-)

diff --git a/pkg/dart/server.go b/pkg/dart/server.go
index c1af121..3829c28 100644
--- a/pkg/dart/server.go
+++ b/pkg/dart/server.go
@@ -34,7 +34,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 			dst.Code("  @override\n")
 		}
 		dst.Code("  Future<")
-		b.printType(dst, method.Result.Type(), false)
+		b.printResult(dst, method)
 		dst.Code("> " + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
 		b.printType(dst, method.Param, false)
@@ -60,7 +60,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 	_ = build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
 		dst.Code("  @override\n")
 		dst.Code("  Future<")
-		b.printType(dst, method.Result.Type(), false)
+		b.printResult(dst, method)
 		dst.Code("> " + build.StringToFirstLower(method.Name.Name))
 		dst.Code("(")
 		b.printType(dst, method.Param, false)
@@ -68,7 +68,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code(", [Context? ctx]){\n")
 
 		dst.Code("    return invoke<")
-		b.printType(dst, method.Result.Type(), false)
+		b.printResult(dst, method)
 		dst.Code(">(\"")
 		dst.Code(build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
 		dst.Code("\", ")
@@ -77,11 +77,14 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code(", ")
 		dst.Code(build.StringToFirstLower(method.ParamName.Name))
 		dst.Code(", ")
-		b.printType(dst, method.Result.Type(), false)
-		dst.Code(".fromMap, ")
-		b.printType(dst, method.Result.Type(), false)
-		dst.Code(".fromData);\n")
-
+		if isVoid(method) {
+			dst.Code("(_) {}, (_) {});\n")
+		} else {
+			b.printType(dst, method.Result.Type(), false)
+			dst.Code(".fromMap, ")
+			b.printType(dst, method.Result.Type(), false)
+			dst.Code(".fromData);\n")
+		}
 		dst.Code("  }\n\n")
 		return nil
 	})
@@ -124,9 +127,7 @@ func (b *Builder) printServerRouter(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("     	   return utf8.encode(json.encode(data.toMap()));\n")
 		dst.Code("        },\n")
 		dst.Code("        invoke: (Context ctx, Data data) async {\n")
-		dst.Code("     	   return await server." + build.StringToFirstLower(method.Name.Name) + "(data as ")
-		b.printType(dst, method.Param.Type(), false)
-		dst.Code(", ctx);\n")
+		b.printInvoke(dst, method)
 		dst.Code("        },\n")
 		dst.Code("      ),\n")
 		return nil
@@ -146,9 +147,7 @@ func (b *Builder) printServerRouter(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code("     	   return data.toData().buffer.asUint8List();\n")
 		dst.Code("        },\n")
 		dst.Code("        invoke: (Context ctx, Data data) async {\n")
-		dst.Code("     	   return await server." + build.StringToFirstLower(method.Name.Name) + "(data as ")
-		b.printType(dst, method.Param.Type(), false)
-		dst.Code(", ctx);\n")
+		b.printInvoke(dst, method)
 		dst.Code("        },\n")
 		dst.Code("      ),\n")
 		return nil
@@ -182,3 +181,29 @@ func (b *Builder) printServerRouter(dst *build.Writer, typ *ast.ServerType) {
 
 	dst.Code("}\n\n")
 }
+
+// isVoid says whether a method gives no result
+func isVoid(method *ast.FuncType) bool {
+	return "void" == method.Result.Type().(*ast.Ident).Name
+}
+
+func (b *Builder) printResult(dst *build.Writer, method *ast.FuncType) {
+	if isVoid(method) {
+		dst.Code("void")
+		return
+	}
+	b.printType(dst, method.Result.Type(), false)
+}
+
+func (b *Builder) printInvoke(dst *build.Writer, method *ast.FuncType) {
+	dst.Code("     	   ")
+	if !isVoid(method) {
+		dst.Code("return ")
+	}
+	dst.Code("await server." + build.StringToFirstLower(method.Name.Name) + "(data as ")
+	b.printType(dst, method.Param.Type(), false)
+	dst.Code(", ctx);\n")
+	if isVoid(method) {
+		dst.Code("     	   return null;\n")
+	}
+}
-- 
2.43.0


From 40eaf8a1ef6edda3e3ead1b8e36630b0efdce499 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:45:54 +0000
Subject: [PATCH 71/91] fix: write and copy the values of Dart maps by their
 own type

---
 pkg/dart/data.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index bd07b13..06249da 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -386,13 +386,13 @@ func (b *Builder) printCopy(dst *build.Writer, name string, expr ast.Expr, data
 			dst.Code(name + "?.map((key,value) => MapEntry(")
 			b.printCopy(dst, "key", t.Key, data, empty)
 			dst.Code(",")
-			b.printCopy(dst, "value", t.Key, data, empty)
-			dst.Code(")")
+			b.printCopy(dst, "value", t.VType, data, empty)
+			dst.Code("))")
 		} else {
 			dst.Code(name + ".map((key,value) => MapEntry(")
 			b.printCopy(dst, "key", t.Key, data, empty)
 			dst.Code(",")
-			b.printCopy(dst, "value", t.Key, data, empty)
+			b.printCopy(dst, "value", t.VType, data, empty)
 			dst.Code("))")
 		}
 	case *ast.VarType:
@@ -581,13 +581,13 @@ func (b *Builder) printToMap(dst *build.Writer, name string, expr ast.Expr, data
 			dst.Code(name + "?.map((key,value) => MapEntry(")
 			b.printToMap(dst, "key", t.Key, data, empty)
 			dst.Code(",")
-			b.printToMap(dst, "value", t.Key, data, empty)
-			dst.Code(")")
+			b.printToMap(dst, "value", t.VType, data, empty)
+			dst.Code("))")
 		} else {
 			dst.Code(name + ".map((key,value) => MapEntry(")
 			b.printToMap(dst, "key", t.Key, data, empty)
 			dst.Code(",")
-			b.printToMap(dst, "value", t.Key, data, empty)
+			b.printToMap(dst, "value", t.VType, data, empty)
 			dst.Code("))")
 		}
 	case *ast.VarType:
-- 
2.43.0


From 1ca34dc497690e339dee66babc017a3cec19c75d Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 72/91] fix: read Dart lists of floating point numbers as such

---
 pkg/dart/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index 06249da..5d1683a 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -439,7 +439,7 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 				if empty {
 					dst.Code("null == " + name + " ? null : (" + v + " is num ? " + v + ".toDouble() : num.tryParse(" + v + ".toString())?.toDouble())")
 				} else {
-					dst.Code("null == " + name + " ? 0 : (" + v + " is num ? " + v + ".toDouble() : num.tryParse(" + v + ".toString())?.toDouble() ?? 0)")
+					dst.Code("null == " + name + " ? 0.0 : (" + v + " is num ? " + v + ".toDouble() : num.tryParse(" + v + ".toString())?.toDouble() ?? 0.0)")
 				}
 			case build.String:
 				if empty {
-- 
2.43.0


From 1c0aa13baf78ba7a2c5c1bed19ab1b7d6d5d6435 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:46:56 +0000
Subject: [PATCH 73/91] fix: write Dart uint64 values without a sign

---
 pkg/dart/data.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index 5d1683a..c266324 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -540,7 +540,13 @@ func (b *Builder) printToMap(dst *build.Writer, name string, expr ast.Expr, data
 			switch build.BaseType(expr.(*ast.Ident).Name) {
 			case build.Int8, build.Int16, build.Int32, build.Uint32, build.Uint8, build.Uint16, build.Float, build.Double, build.String, build.Bool:
 				dst.Code(name)
-			case build.Uint64, build.Int64:
+			case build.Uint64:
+				if empty {
+					dst.Code(name + "?.toStringUnsigned()")
+				} else {
+					dst.Code(name + ".toStringUnsigned()")
+				}
+			case build.Int64:
 				if empty {
 					dst.Code(name + "?.toString()")
 				} else {
-- 
2.43.0


From d6d7e1b6af22c0145a90983f808f1f1fd4b88840 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:46:57 +0000
Subject: [PATCH 74/91] fix: write the keys of Dart maps as text and read those
 of bool back

---
 pkg/dart/data.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index c266324..48357a1 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -457,7 +457,7 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 				if empty {
 					dst.Code("null == " + name + " ? null : (" + v + " is bool ? " + v + " : (" + v + " is num ? 0 != " + v + " : (null == num.tryParse(" + v + ".toString()) ? null : 0 != num.tryParse(" + v + ".toString()))))")
 				} else {
-					dst.Code("null == " + name + " ? false:(" + v + " is bool ? " + v + " : 0 != (" + v + " is num ? " + v + " : num.tryParse(" + v + ".toString()) ?? 0))")
+					dst.Code("null == " + name + " ? false:(" + v + " is bool ? " + v + " : \"true\" == " + v + " || 0 != (" + v + " is num ? " + v + " : num.tryParse(" + v + ".toString()) ?? 0))")
 				}
 			case build.Decimal:
 				if empty {
@@ -585,13 +585,13 @@ func (b *Builder) printToMap(dst *build.Writer, name string, expr ast.Expr, data
 		empty = t.IsEmpty()
 		if empty {
 			dst.Code(name + "?.map((key,value) => MapEntry(")
-			b.printToMap(dst, "key", t.Key, data, empty)
+			b.printToKey(dst, "key", t.Key, data)
 			dst.Code(",")
 			b.printToMap(dst, "value", t.VType, data, empty)
 			dst.Code("))")
 		} else {
 			dst.Code(name + ".map((key,value) => MapEntry(")
-			b.printToMap(dst, "key", t.Key, data, empty)
+			b.printToKey(dst, "key", t.Key, data)
 			dst.Code(",")
 			b.printToMap(dst, "value", t.VType, data, empty)
 			dst.Code("))")
@@ -602,6 +602,15 @@ func (b *Builder) printToMap(dst *build.Writer, name string, expr ast.Expr, data
 	}
 }
 
+// printToKey writes a key of a map, which JSON only has as text
+func (b *Builder) printToKey(dst *build.Writer, name string, expr ast.Expr, data *ast.DataType) {
+	b.printToMap(dst, name, expr, data, false)
+	if build.String == build.GetBaseType(expr) {
+		return
+	}
+	dst.Code(".toString()")
+}
+
 func (b *Builder) printExtend(dst *build.Writer, extends []*ast.Extends, start bool) {
 	for i, v := range extends {
 		if 0 != i || start {
-- 
2.43.0


From 269e233519153056117a271f956acc766274012d Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:46:57 +0000
Subject: [PATCH 75/91] fix: read a missing Dart enum as its first item where
 none has the value 0

---
 pkg/dart/data.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index 48357a1..f324b61 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -3,6 +3,7 @@ package dart
 import (
 	"hbuf/pkg/ast"
 	"hbuf/pkg/build"
+	"strconv"
 )
 
 func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
@@ -407,10 +408,11 @@ func (b *Builder) printFormMap(dst *build.Writer, name string, v string, expr as
 		t := expr.(*ast.Ident)
 		if nil != t.Obj {
 			if ast.Enum == t.Obj.Kind {
+				first := firstValue(t.Obj)
 				if empty {
 					dst.Code("null == " + name + " ? null :" + v + " is num ? " + build.StringToHumpName(t.Name) + ".valueOf(" + v + ".toInt()) : null == num.tryParse(" + v + ".toString()) ? null : " + build.StringToHumpName(t.Name) + ".valueOf(num.tryParse(" + v + ".toString())!.toInt())")
 				} else {
-					dst.Code("null == " + name + " ? " + build.StringToHumpName(t.Name) + ".valueOf(0) : " + build.StringToHumpName(t.Name) + ".valueOf(" + v + " is num ? " + v + ".toInt() : num.tryParse(" + v + ".toString())?.toInt() ?? 0)")
+					dst.Code("null == " + name + " ? " + build.StringToHumpName(t.Name) + ".valueOf(" + first + ") : " + build.StringToHumpName(t.Name) + ".valueOf(" + v + " is num ? " + v + ".toInt() : num.tryParse(" + v + ".toString())?.toInt() ?? " + first + ")")
 				}
 			} else if ast.Data == t.Obj.Kind {
 				if empty {
@@ -602,6 +604,20 @@ func (b *Builder) printToMap(dst *build.Writer, name string, expr ast.Expr, data
 	}
 }
 
+// firstValue is what an enum that is not given stands for: 0, or the first item where there is no item 0
+func firstValue(obj *ast.Object) string {
+	items := obj.Decl.(*ast.TypeSpec).Type.(*ast.EnumType).Items
+	for _, item := range items {
+		if id, err := strconv.ParseInt(item.Id.Value, 0, 64); nil == err && 0 == id {
+			return "0"
+		}
+	}
+	if 0 == len(items) {
+		return "0"
+	}
+	return items[0].Id.Value
+}
+
 // printToKey writes a key of a map, which JSON only has as text
 func (b *Builder) printToKey(dst *build.Writer, name string, expr ast.Expr, data *ast.DataType) {
 	b.printToMap(dst, name, expr, data, false)
-- 
2.43.0


From e7137e6c1b2adc21657ed8db7de9954fec71af17 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 76/91] fix: report what is wrong with a verify tag when
 generating Dart

---
 pkg/dart/dart.go   | 12 +++++++++---
 pkg/dart/verify.go |  2 +-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/dart/dart.go b/pkg/dart/dart.go
index 75f73bb..63718e1 100644
--- a/pkg/dart/dart.go
+++ b/pkg/dart/dart.go
@@ -48,10 +48,12 @@ func NewGoWriter() *DartWriter {
 type Builder struct {
 	lang map[string]struct{}
 	pkg  *ast.Package
+	fSet *token.FileSet
 }
 
 func Build(file *ast.File, fset *token.FileSet, param *build.Param) error {
 	b := Builder{
+		fSet: fset,
 		lang: map[string]struct{}{},
 		pkg:  param.GetPkg(),
 	}
@@ -189,18 +191,21 @@ func (b *Builder) Node(dst *DartWriter, fset *token.FileSet, node interface{}) e
 		switch s.(type) {
 		case *ast.ImportSpec:
 		case *ast.TypeSpec:
-			b.printTypeSpec(dst, (s.(*ast.TypeSpec)).Type)
+			err := b.printTypeSpec(dst, (s.(*ast.TypeSpec)).Type)
+			if err != nil {
+				return err
+			}
 		}
 	}
 	return nil
 }
 
-func (b *Builder) printTypeSpec(dst *DartWriter, expr ast.Expr) {
+func (b *Builder) printTypeSpec(dst *DartWriter, expr ast.Expr) error {
 	switch expr.(type) {
 	case *ast.DataType:
 		b.printDataCode(dst.data, expr.(*ast.DataType))
 		b.printFormCode(dst.ui, expr)
-		b.printVerifyCode(dst.verify, expr.(*ast.DataType))
+		return b.printVerifyCode(dst.verify, expr.(*ast.DataType))
 	case *ast.ServerType:
 		b.printServerCode(dst.server, expr.(*ast.ServerType))
 
@@ -208,6 +213,7 @@ func (b *Builder) printTypeSpec(dst *DartWriter, expr ast.Expr) {
 		b.printEnumCode(dst.enum, expr.(*ast.EnumType))
 		b.printFormCode(dst.ui, expr)
 	}
+	return nil
 }
 
 func (b *Builder) printType(dst *build.Writer, expr ast.Expr, notEmpty bool) {
diff --git a/pkg/dart/verify.go b/pkg/dart/verify.go
index 7f01ca3..37088ec 100644
--- a/pkg/dart/verify.go
+++ b/pkg/dart/verify.go
@@ -180,7 +180,7 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 		return nil
 	})
 	if err != nil {
-		return err
+		return build.ErrorToFileError(err, b.fSet)
 	}
 	return nil
 }
-- 
2.43.0


From a67d3a73759f4377da7a5b69e25beac49a87d084 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 77/91] fix: check texts in Dart by the formats and the range
 of their type

---
 pkg/dart/verify.go | 236 ++++++++++++++++-----------------------------
 1 file changed, 85 insertions(+), 151 deletions(-)

diff --git a/pkg/dart/verify.go b/pkg/dart/verify.go
index 37088ec..b6ddeac 100644
--- a/pkg/dart/verify.go
+++ b/pkg/dart/verify.go
@@ -40,139 +40,75 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 		}
 
 		dst.Code("String? verify" + dName + "_" + fName + "(BuildContext context, String? text) {\n")
-		isNull := build.IsNil(field.Type)
-		for i, val := range verify.GetFormat() {
+		dst.Code("\tfinal value = text ?? \"\";\n")
+		first := true
+		for _, val := range verify.GetFormat() {
 			f := build.GetFormat(val.Item.Tags)
 			if nil == f {
 				continue
 			}
 			b.getPackage(dst, val.Enum.Name, "enum")
-			if isNull && 0 == i {
+			if first && build.IsNil(field.Type) {
+				dst.Code("\tif (value.isEmpty) {\n")
 				if !f.Null {
-					dst.Code("\tif (text?.isEmpty ?? true) {\n")
-					dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
-					dst.Code("\t}\n")
+					b.printVerifyError(dst, val)
 				} else {
-					dst.Code("\tif (text?.isEmpty ?? true) {\n")
 					dst.Code("\t\treturn null;\n")
-					dst.Code("\t}\n")
 				}
+				dst.Code("\t}\n")
 			}
-			if build.IsEnum(field.Type) {
-				//dst.Code("\tif 0 < len(i.Get" + fName + "().ToName()) {\n")
-				//dst.Code("\t\treturn &hbuf.Result{Code: int(" + pack + "), Msg: " + pack + ".ToName()}\n")
-				//dst.Code("\t}\n")
-			} else if build.IsMap(field.Type) {
-
-			} else if build.IsArray(field.Type) {
-
-			} else {
-				t := build.GetBaseType(field.Type)
-				switch t {
-				case build.Int8:
-					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*", field.Type, "–128", "127")
-				case build.Int16:
-					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*", field.Type, "-32768", "32767")
-				case build.Int32:
-					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*", field.Type, "-2147483648", "2147483647")
-				case build.Uint8:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", field.Type, "0", "255")
-				case build.Uint16:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", field.Type, "0", "65535")
-				case build.Uint32:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", field.Type, "0", "4294967295")
-				case build.Float, build.Double:
-					b.verifyNum(dst, val, f, "-?[0-9]\\\\d*.\\\\d*|0.\\\\d*[0-9]\\\\d*", field.Type, "", "")
-				case build.Int64:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", field.Type, "-9223372036854775808", "9223372036854775808")
-				case build.Uint64:
-					b.verifyNum(dst, val, f, "[0-9]\\\\d*", field.Type, "0", "18446744073709551615615")
-				case build.Date:
-					dst.Code("\tDateTime? val = DateTime.tryParse(text!);\n")
-					dst.Code("\tif (null == val) {\n")
-					dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
-					dst.Code("\t}\n")
-					if 0 < len(f.Min) || 0 < len(f.Max) {
-						dst.Code("\tif (")
-						if 0 < len(f.Min) {
-							parse, err := time.Parse("2006-01-02T15:04:05Z", f.Min)
-							if err != nil {
-								return err
-							}
-							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " > val.millisecondsSinceEpoch")
-						}
-						if 0 < len(f.Max) {
-							if 0 < len(f.Min) {
-								dst.Code(" || ")
-							}
-							parse, err := time.Parse("2006-01-02T15:04:05Z", f.Max)
-							if err != nil {
-								return err
-							}
-							dst.Code(strconv.FormatInt(parse.UnixMilli(), 10) + " < val.millisecondsSinceEpoch")
-						}
-						dst.Code(") {\n")
-						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
-						dst.Code("\t}\n")
-					}
-				case build.Decimal:
-					if 0 < len(f.Reg) {
-						dst.Code("\tif (!RegExp(\"" + strings.ReplaceAll(f.Reg, "$", "\\$") + "\").hasMatch(text!)) {\n")
-						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
-						dst.Code("\t}\n")
-					}
-					if i == len(verify.GetFormat())-1 {
-						dst.Code("\tif (!RegExp(\"-?[0-9]\\\\d*.\\\\d*|0.\\\\d*[0-9]\\\\d*\").hasMatch(text")
-						if build.IsNil(field.Type) {
-							dst.Code("!")
-						}
-						dst.Code(")) {\n")
-						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
-						dst.Code("\t}\n")
-
-						dst.Import("package:decimal/decimal.dart", "")
-						dst.Code("\tDecimal? val = Decimal.tryParse(text!);\n")
-						dst.Code("\tif (null == val) {\n")
-						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
-						dst.Code("\t}\n")
-						if 0 < len(f.Min) || 0 < len(f.Max) {
-							dst.Code("\tif (")
-							if 0 < len(f.Min) {
-								dst.Code("1 == val.compareTo(Decimal.fromInt(" + f.Min + "))")
-							}
-							if 0 < len(f.Max) {
-								if 0 < len(f.Min) {
-									dst.Code(" || ")
-								}
-								dst.Code("-1 == val.compareTo(Decimal.fromInt(" + f.Max + "))")
-							}
-							dst.Code(") {\n")
-							dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
-							dst.Code("\t}\n")
-						}
-					}
-				case build.String:
-					if 0 < len(f.Min) || 0 < len(f.Max) {
-						dst.Code("\tif (")
-						if 0 < len(f.Min) {
-							dst.Code(f.Min + " > (text?.length ?? 0)")
-						}
-						if 0 < len(f.Max) {
-							if 0 < len(f.Min) {
-								dst.Code(" || ")
-							}
-							dst.Code(f.Max + " < (text?.length ?? 0)")
-						}
-						dst.Code(") {\n")
-						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
-						dst.Code("\t}\n")
+			first = false
+			if build.IsEnum(field.Type) || build.IsMap(field.Type) || build.IsArray(field.Type) {
+				continue
+			}
+			switch build.GetBaseType(field.Type) {
+			case build.Int8:
+				b.verifyNum(dst, val, f, _integer, "-128", "127")
+			case build.Int16:
+				b.verifyNum(dst, val, f, _integer, "-32768", "32767")
+			case build.Int32:
+				b.verifyNum(dst, val, f, _integer, "-2147483648", "2147483647")
+			case build.Int64:
+				b.verifyNum(dst, val, f, _integer, "-9223372036854775808", "9223372036854775807")
+			case build.Uint8:
+				b.verifyNum(dst, val, f, _integer, "0", "255")
+			case build.Uint16:
+				b.verifyNum(dst, val, f, _integer, "0", "65535")
+			case build.Uint32:
+				b.verifyNum(dst, val, f, _integer, "0", "4294967295")
+			case build.Uint64:
+				b.verifyNum(dst, val, f, _integer, "0", "18446744073709551615")
+			case build.Float, build.Double, build.Decimal:
+				b.verifyNum(dst, val, f, _number, "", "")
+			case build.Date:
+				cond := []string{"null == DateTime.tryParse(value)"}
+				if 0 < len(f.Min) {
+					parse, err := time.Parse("2006-01-02T15:04:05Z", f.Min)
+					if err != nil {
+						return err
 					}
-					if len(f.Reg) > 0 {
-						dst.Code("\tif (!RegExp(\"" + strings.ReplaceAll(f.Reg, "$", "\\$") + "\").hasMatch(text!)) {\n")
-						dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
-						dst.Code("\t}\n")
+					cond = append(cond, "DateTime.parse(value).millisecondsSinceEpoch < "+strconv.FormatInt(parse.UnixMilli(), 10))
+				}
+				if 0 < len(f.Max) {
+					parse, err := time.Parse("2006-01-02T15:04:05Z", f.Max)
+					if err != nil {
+						return err
 					}
+					cond = append(cond, "DateTime.parse(value).millisecondsSinceEpoch > "+strconv.FormatInt(parse.UnixMilli(), 10))
+				}
+				b.printVerifyCheck(dst, val, cond)
+			case build.String:
+				var cond []string
+				if 0 < len(f.Min) {
+					cond = append(cond, "value.runes.length < "+f.Min)
+				}
+				if 0 < len(f.Max) {
+					cond = append(cond, "value.runes.length > "+f.Max)
+				}
+				if 0 < len(f.Reg) {
+					cond = append(cond, "!RegExp("+quote(f.Reg)+").hasMatch(value)")
 				}
+				b.printVerifyCheck(dst, val, cond)
 			}
 		}
 		dst.Code("\treturn null;\n")
@@ -185,40 +121,38 @@ func (b *Builder) printVerifyFieldCode(dst *build.Writer, data *ast.DataType) er
 	return nil
 }
 
-func (b *Builder) verifyNum(dst *build.Writer, val *build.VerifyEnum, f *build.Format, reg string, field ast.Type, min, max string) {
-	dst.Code("\tif (!RegExp(\"" + reg + "\").hasMatch(text")
-	if build.IsNil(field) {
-		dst.Code("!")
-	}
+const (
+	_integer = "^[-+]?[0-9]+$"
+	_number  = "^[-+]?[0-9]+(\\.[0-9]+)?([eE][-+]?[0-9]+)?$"
+)
 
-	dst.Code(")) {\n")
-	dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
-	dst.Code("\t}\n")
+// verifyNum prints the check of a number: its notation, the range of its type and the range of the format
+func (b *Builder) verifyNum(dst *build.Writer, val *build.VerifyEnum, f *build.Format, reg string, min, max string) {
 	dst.Import("package:decimal/decimal.dart", "")
-	dst.Code("\tvar val = Decimal.tryParse(text!);\n")
-	dst.Code("\tif (null == val) {\n")
-	dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
-	dst.Code("\t}\n")
-
-	if 0 < len(min) {
-		dst.Code("\tif (val < Decimal.parse(\"" + min + "\") || val > Decimal.parse(\"" + max + "\")) {\n")
-		dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
-		dst.Code("\t}\n")
-	}
-
-	if 0 < len(f.Min) || 0 < len(f.Max) {
-		dst.Code("\tif (")
-		if 0 < len(f.Min) {
-			dst.Code("Decimal.tryParse(" + f.Min + ") > val")
+	cond := []string{"!RegExp(" + quote(reg) + ").hasMatch(value)"}
+	for _, limit := range []string{min, f.Min} {
+		if 0 < len(limit) {
+			cond = append(cond, "Decimal.parse(value) < Decimal.parse(\""+limit+"\")")
 		}
-		if 0 < len(f.Max) {
-			if 0 < len(f.Min) {
-				dst.Code(" || ")
-			}
-			dst.Code("Decimal.tryParse(" + f.Max + ") < val")
+	}
+	for _, limit := range []string{max, f.Max} {
+		if 0 < len(limit) {
+			cond = append(cond, "Decimal.parse(value) > Decimal.parse(\""+limit+"\")")
 		}
-		dst.Code(") {\n")
-		dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
-		dst.Code("\t}\n")
 	}
+	b.printVerifyCheck(dst, val, cond)
+}
+
+// printVerifyCheck prints the refusal of a text that any of the conditions applies to
+func (b *Builder) printVerifyCheck(dst *build.Writer, val *build.VerifyEnum, cond []string) {
+	if 0 == len(cond) {
+		return
+	}
+	dst.Code("\tif (" + strings.Join(cond, " || ") + ") {\n")
+	b.printVerifyError(dst, val)
+	dst.Code("\t}\n")
+}
+
+func (b *Builder) printVerifyError(dst *build.Writer, val *build.VerifyEnum) {
+	dst.Code("\t\treturn " + build.StringToHumpName(val.Enum.Name.Name) + "." + build.StringToAllUpper(val.Item.Name.Name) + ".toText(context);\n")
 }
-- 
2.43.0


From 4fbbedb72b04222a7cf0b872dec53a183f396703 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:50:58 +0000
Subject: [PATCH 78/91] fix: import the texts of a Dart enum only where it has
 items

---
 pkg/dart/enum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dart/enum.go b/pkg/dart/enum.go
index f0c37c4..9d4f224 100644
--- a/pkg/dart/enum.go
+++ b/pkg/dart/enum.go
@@ -14,7 +14,7 @@ func (b *Builder) printEnumCode(dst *build.Writer, typ *ast.EnumType) {
 func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	enumName := build.StringToHumpName(typ.Name.Name)
 	_, isUi := build.GetTag(typ.Tags, "ui")
-	if isUi {
+	if isUi && 0 < len(typ.Items) {
 		b.getPackage(dst, typ.Name, "ui")
 	}
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-- 
2.43.0


From fa101a76f1022d54da16b12632df64b2fcbeea19 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 79/91] fix: show and read the members of Dart forms by their
 type

---
 pkg/dart/ui.go | 156 +++++++++++++++++++++++++------------------------
 1 file changed, 80 insertions(+), 76 deletions(-)

diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index b187405..b1cbf14 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -268,36 +268,12 @@ func (b *Builder) printTable(dst *build.Writer, typ *ast.DataType, u *ui) {
 		} else {
 			dst.Code("\t\t\t\treturn TablesCell(\n")
 			dst.Code("\t\t\t\t\tchild: Tooltip(\n")
-			dst.Code("\t\t\t\t\t\tmessage: data." + fieldName)
-			if isArray {
-				if isNull {
-					dst.Code("?")
-				}
-				dst.Code(".map((e) => e")
-				b.printToString(dst, field.Type, false, table.digit, table.format, "??\"\"")
-				dst.Code(").join(',')")
-				if isNull {
-					dst.Code(" ?? ''")
-				}
-			} else {
-				b.printToString(dst, field.Type, false, table.digit, table.format, "??\"\"")
-			}
+			dst.Code("\t\t\t\t\t\tmessage: ")
+			b.printText(dst, "data."+fieldName, field.Type, table)
 			dst.Code(",\n")
 			dst.Code("\t\t\t\t\t\tchild: Text(\n")
-			dst.Code("\t\t\t\t\t\t\tdata." + fieldName)
-			if isArray {
-				if isNull {
-					dst.Code("?")
-				}
-				dst.Code(".map((e) => e")
-				b.printToString(dst, field.Type, false, table.digit, table.format, "??\"\"")
-				dst.Code(").join(',')")
-				if isNull {
-					dst.Code(" ?? ''")
-				}
-			} else {
-				b.printToString(dst, field.Type, false, table.digit, table.format, "??\"\"")
-			}
+			dst.Code("\t\t\t\t\t\t\t")
+			b.printText(dst, "data."+fieldName, field.Type, table)
 			dst.Code(",\n")
 			dst.Code("\t\t\t\t\t\t\tmaxLines: 1,\n")
 			dst.Code("\t\t\t\t\t\t\toverflow: TextOverflow.ellipsis,\n")
@@ -374,15 +350,11 @@ func (b *Builder) printToString(dst *build.Writer, expr ast.Expr, empty bool, di
 		//	dst.Code("?")
 		//}
 	case *ast.MapType:
-		//ma := expr.(*ast.MapType)
-		//dst.Code("Map<")
-		//printType(dst, ma.Key, false)
-		//dst.Code(", ")
-		//printType(dst, ma.VType, false)
-		//dst.Code(">")
-		//if ma.Empty && !notEmpty {
-		//	dst.Code("?")
-		//}
+		if build.IsNil(expr) {
+			dst.Code("?.toString()" + val)
+		} else {
+			dst.Code(".toString()")
+		}
 	case *ast.VarType:
 		t := expr.(*ast.VarType)
 		b.printToString(dst, t.Type(), t.Empty, digit, format, val)
@@ -477,6 +449,65 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 	}
 }
 
+// printText prints the text that shows a value
+func (b *Builder) printText(dst *build.Writer, name string, expr ast.Type, u *ui) {
+	isNull := build.IsNil(expr)
+	dst.Code(name)
+	if array, ok := expr.(*ast.ArrayType); ok {
+		if isNull {
+			dst.Code("?")
+		}
+		dst.Code(".map((e) => e")
+		b.printToString(dst, array.VType, false, u.digit, u.format, "??\"\"")
+		dst.Code(").join(\",\")")
+		if isNull {
+			dst.Code(" ?? \"\"")
+		}
+		return
+	}
+	b.printToString(dst, expr, false, u.digit, u.format, "??\"\"")
+}
+
+// printSaved prints how the text of a form gets into its member, for the types that a text can be read as
+func (b *Builder) printSaved(dst *build.Writer, name string, expr ast.Type, u *ui) {
+	item := expr
+	array, isArray := expr.(*ast.ArrayType)
+	if isArray {
+		item = array.VType
+	}
+	if u.onlyRead || !isText(item) {
+		return
+	}
+	dst.Code("\t\t" + name + ".onSaved = (val) => info." + name + " = ")
+	if build.IsNil(expr) {
+		dst.Code("null == val || val.isEmpty ? null : ")
+	} else if isArray {
+		dst.Code("null == val || val.isEmpty ? [] : ")
+	}
+	if isArray {
+		dst.Code("val.split(\",\").map((e) => ")
+		if build.IsNil(item) {
+			dst.Code("e.isEmpty ? null : ")
+		}
+		b.printFormString(dst, "e", item, false, u.digit, u.format)
+		dst.Code(").toList()")
+	} else {
+		b.printFormString(dst, "val", expr, false, u.digit, u.format)
+	}
+	dst.Code(";\n")
+}
+
+// isText tells whether a value of the type can be read from a text
+func isText(expr ast.Expr) bool {
+	switch t := expr.(type) {
+	case *ast.VarType:
+		return isText(t.Type())
+	case *ast.Ident:
+		return nil == t.Obj || build.IsEnum(t)
+	}
+	return false
+}
+
 func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 	name := build.StringToHumpName(typ.Name.Name)
 	lang := dst.GetLang(name)
@@ -515,35 +546,10 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 		}
 		if "text" == form.form {
 			dst.Code("\tfinal TextFormBuild " + fieldName + " = TextFormBuild();\n\n")
-			if isArray {
-				setValue.Code("\t\t" + fieldName + ".initialValue = info." + fieldName)
-				if isNil {
-					setValue.Code("?")
-				}
-				setValue.Code(".map((e) => e")
-				b.printToString(setValue, field.Type, false, form.digit, form.format, "??\"\"")
-				setValue.Code(").join(\",\");\n")
-				if !form.onlyRead {
-					setValue.Code("\t\t" + fieldName + ".onSaved = (val) => info." + fieldName + " = ")
-					setValue.Code("val?.split(\",\").map((e) =>e")
-					b.printFormString(setValue, "val", field.Type, false, form.digit, form.format)
-					setValue.Code(").toList()")
-					if !isNil {
-						setValue.Code(" ?? [] ")
-					}
-					setValue.Code(";\n")
-				}
-			} else {
-				setValue.Code("\t\t" + fieldName + ".initialValue = info." + fieldName)
-				b.printToString(setValue, field.Type, false, form.digit, form.format, "??\"\"")
-				setValue.Code(";\n")
-				if !form.onlyRead {
-					setValue.Code("\t\t" + fieldName + ".onSaved = (val) => info." + fieldName + " = ")
-					setValue.Code("\"\" == val ? null : ")
-					b.printFormString(setValue, "val", field.Type, false, form.digit, form.format)
-					setValue.Code(";\n")
-				}
-			}
+			setValue.Code("\t\t" + fieldName + ".initialValue = ")
+			b.printText(setValue, "info."+fieldName, field.Type, form)
+			setValue.Code(";\n")
+			b.printSaved(setValue, fieldName, field.Type, form)
 
 			setValue.Code("\t\t" + fieldName + ".readOnly = readOnly || " + onlyRead + ";\n")
 			setValue.Code("\t\t" + fieldName + ".widthSizes = sizes;\n")
@@ -583,15 +589,10 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			lang.Add(fieldName, field.Tags)
 		} else if "file" == form.form {
 			dst.Code("\tfinal FileFormBuild " + fieldName + " = FileFormBuild();\n\n")
-			setValue.Code("\t\t" + fieldName + ".initialValue = info." + fieldName)
-			b.printToString(setValue, field.Type, false, form.digit, form.format, "??\"\"")
+			setValue.Code("\t\t" + fieldName + ".initialValue = ")
+			b.printText(setValue, "info."+fieldName, field.Type, form)
 			setValue.Code(";\n")
-			if !form.onlyRead {
-				setValue.Code("\t\t" + fieldName + ".onSaved = (val) => info." + fieldName + " = ")
-				setValue.Code("\"\" == val ? null : ")
-				b.printFormString(setValue, "val", field.Type, false, form.digit, form.format)
-				setValue.Code(";\n")
-			}
+			b.printSaved(setValue, fieldName, field.Type, form)
 			setValue.Code("\t\t" + fieldName + ".readOnly = readOnly || " + onlyRead + ";\n")
 			setValue.Code("\t\t" + fieldName + ".widthSizes = sizes;\n")
 			setValue.Code("\t\t" + fieldName + ".padding = padding;\n")
@@ -705,8 +706,11 @@ func (b *Builder) printForm(dst *build.Writer, typ *ast.DataType, u *ui) {
 			setValue.Code(";\n")
 			if !form.onlyRead {
 				setValue.Code("\t\t" + fieldName + ".onSaved = (val) => info." + fieldName + " = ")
-				setValue.Code("\"\" == val ? null : ")
-				setValue.Code("val ;\n")
+				if isNil {
+					setValue.Code("\"\" == val ? null : val;\n")
+				} else {
+					setValue.Code("val!;\n")
+				}
 			}
 			setValue.Code("\t\t" + fieldName + ".readOnly = readOnly || " + onlyRead + ";\n")
 			setValue.Code("\t\t" + fieldName + ".widthSizes = sizes;\n")
-- 
2.43.0


From e45de61967686366a327c3261d31f121b519ae5b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 80/91] fix: write the date formats of forms as they are
 declared

---
 pkg/dart/ui.go       | 4 ++--
 pkg/typescript/ui.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index b1cbf14..4e4a523 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -91,7 +91,7 @@ func (b *Builder) getUI(tags []*ast.Tag) *ui {
 				}
 				form.index = &atoi
 			} else if "format" == item.Name.Name {
-				form.format = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
+				form.format = build.GetText(item.Values[0].Value)
 			} else if "width" == item.Name.Name {
 				atoi, err := strconv.ParseFloat(item.Values[0].Value[1:len(item.Values[0].Value)-1], 10)
 				if err != nil {
@@ -333,7 +333,7 @@ func (b *Builder) printToString(dst *build.Writer, expr ast.Expr, empty bool, di
 				if 0 == len(format) {
 					format = "yyyy/MM/dd HH:mm:ss"
 				}
-				dst.Code(".format(\"" + format + "\")")
+				dst.Code(".format(" + quote(format) + ")")
 			case build.Decimal:
 				if empty {
 					dst.Code("?")
diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index 119253f..215619d 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -92,7 +92,7 @@ func (b *Builder) getUI(tags []*ast.Tag) *ui {
 				}
 				form.index = &atoi
 			} else if "format" == item.Name.Name {
-				form.format = item.Values[0].Value[1 : len(item.Values[0].Value)-1]
+				form.format = build.GetText(item.Values[0].Value)
 			} else if "width" == item.Name.Name {
 				atoi, err := strconv.ParseFloat(item.Values[0].Value[1:len(item.Values[0].Value)-1], 10)
 				if err != nil {
-- 
2.43.0


From 94fd82e51d78e426f16bac7caebc516f3fd6995f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 81/91] fix: reject formats whose bounds or expression do not
 suit the member

---
 pkg/build/data.go   | 13 +++++++++-
 pkg/build/format.go | 63 +++++++++++++++++++++++++++++++++++++++++++++
 pkg/build/verify.go |  3 +++
 3 files changed, 78 insertions(+), 1 deletion(-)

diff --git a/pkg/build/data.go b/pkg/build/data.go
index e1f052f..4e163a0 100644
--- a/pkg/build/data.go
+++ b/pkg/build/data.go
@@ -197,10 +197,21 @@ func (b *Builder) checkDataItem(file *ast.File, data *ast.DataType) error {
 				Msg: "Duplicate item: " + item.Id.Value,
 			}
 		}
-		_, err = GetVerify(item.Tags, file, b.GetDataType)
+		verify, err := GetVerify(item.Tags, file, b.GetDataType)
 		if err != nil {
 			return ErrorToFileError(err, b.fset)
 		}
+		if nil == verify {
+			continue
+		}
+		for _, val := range verify.GetFormat() {
+			if f := GetFormat(val.Item.Tags); nil != f && !f.suits(item.Type) {
+				return scanner.Error{
+					Pos: b.fset.Position(val.Pos),
+					Msg: "The format does not suit the type: " + val.Item.Name.Name,
+				}
+			}
+		}
 	}
 	return nil
 }
diff --git a/pkg/build/format.go b/pkg/build/format.go
index 610f864..5878247 100644
--- a/pkg/build/format.go
+++ b/pkg/build/format.go
@@ -2,8 +2,28 @@ package build
 
 import (
 	"hbuf/pkg/ast"
+	"math/big"
+	"regexp"
+	"time"
 )
 
+var (
+	_integerBound = regexp.MustCompile(`^-?(0|[1-9][0-9]*)$`)
+	_numberBound  = regexp.MustCompile(`^-?(0|[1-9][0-9]*)(\.[0-9]+)?$`)
+)
+
+// The values that the integer types hold
+var _integerRange = map[BaseType][2]string{
+	Int8:   {"-128", "127"},
+	Int16:  {"-32768", "32767"},
+	Int32:  {"-2147483648", "2147483647"},
+	Int64:  {"-9223372036854775808", "9223372036854775807"},
+	Uint8:  {"0", "255"},
+	Uint16: {"0", "65535"},
+	Uint32: {"0", "4294967295"},
+	Uint64: {"0", "18446744073709551615"},
+}
+
 type Format struct {
 	Null bool
 	Reg  string
@@ -34,3 +54,46 @@ func GetFormat(tags []*ast.Tag) *Format {
 	}
 	return f
 }
+
+// suits tells whether the bounds and the expression of the format apply to values of the type
+func (f *Format) suits(expr ast.Expr) bool {
+	if IsArray(expr) || IsMap(expr) || IsEnum(expr) {
+		return true
+	}
+	t := GetBaseType(expr)
+	for _, bound := range []string{f.Min, f.Max} {
+		if 0 == len(bound) {
+			continue
+		}
+		switch t {
+		case Int8, Int16, Int32, Int64, Uint8, Uint16, Uint32, Uint64:
+			if !_integerBound.MatchString(bound) {
+				return false
+			}
+			val, _ := new(big.Int).SetString(bound, 10)
+			min, _ := new(big.Int).SetString(_integerRange[t][0], 10)
+			max, _ := new(big.Int).SetString(_integerRange[t][1], 10)
+			if val.Cmp(min) < 0 || val.Cmp(max) > 0 {
+				return false
+			}
+		case Float, Double, Decimal:
+			if !_numberBound.MatchString(bound) {
+				return false
+			}
+		case String:
+			if !_integerBound.MatchString(bound) || '-' == bound[0] {
+				return false
+			}
+		case Date:
+			if _, err := time.Parse("2006-01-02T15:04:05Z", bound); err != nil {
+				return false
+			}
+		}
+	}
+	if String == t && 0 < len(f.Reg) {
+		if _, err := regexp.Compile(f.Reg); err != nil {
+			return false
+		}
+	}
+	return true
+}
diff --git a/pkg/build/verify.go b/pkg/build/verify.go
index 4206526..adbe08e 100644
--- a/pkg/build/verify.go
+++ b/pkg/build/verify.go
@@ -2,6 +2,7 @@ package build
 
 import (
 	"hbuf/pkg/ast"
+	"hbuf/pkg/token"
 	"strings"
 )
 
@@ -9,6 +10,7 @@ type VerifyEnum struct {
 	Name string
 	Enum *ast.EnumType
 	Item *ast.EnumItem
+	Pos  token.Pos
 }
 
 type Verify struct {
@@ -62,6 +64,7 @@ func GetVerify(tags []*ast.Tag, file *ast.File, getType func(file *ast.File, nam
 					Enum: em,
 					Item: ei,
 					Name: item.Name.Name,
+					Pos:  i.Pos() + 1,
 				})
 			}
 		}
-- 
2.43.0


From a43f103631890276e75a04be621fae7fb9d3b0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:04 +0000
Subject: [PATCH 82/91] fix: show uint64 members unsigned in Dart forms and
 tables

---
 pkg/dart/ui.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/dart/ui.go b/pkg/dart/ui.go
index 4e4a523..bc5be9f 100644
--- a/pkg/dart/ui.go
+++ b/pkg/dart/ui.go
@@ -310,11 +310,16 @@ func (b *Builder) printToString(dst *build.Writer, expr ast.Expr, empty bool, di
 			b.printToString(dst, t.Obj.Decl.(*ast.TypeSpec).Type, empty, digit, format, val)
 		} else {
 			switch build.BaseType(t.Name) {
-			case build.Int8, build.Int16, build.Int32, build.Int64, build.Uint8, build.Uint16, build.Uint32, build.Uint64:
+			case build.Int8, build.Int16, build.Int32, build.Int64, build.Uint8, build.Uint16, build.Uint32:
 				if empty {
 					dst.Code("?")
 				}
 				dst.Code(".toString()")
+			case build.Uint64:
+				if empty {
+					dst.Code("?")
+				}
+				dst.Code(".toStringUnsigned()")
 			case build.Float, build.Double:
 				if empty {
 					dst.Code("?")
-- 
2.43.0


From f4fb49997d57d1e9cbe883c53ea9b62e41c58aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:14 +0000
Subject: [PATCH 83/91] fix: store what is entered for a uint64 member unsigned
 in TypeScript forms

---
 pkg/typescript/ui.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index 215619d..c4b4312 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -344,7 +344,7 @@ func (b *Builder) printFormString(dst *build.Writer, name string, expr ast.Expr,
 				if empty {
 					dst.Code("(").Code(name).Code(" == null || ").Code(name).Code(".length == 0)").Code(" ? null : ")
 				}
-				dst.Code("(/^[+]?[0-9]+$/.test(").Code(name).Code(") ? Long.fromValue(" + name + ") :").Code(name).Code(")")
+				dst.Code("(/^[+]?[0-9]+$/.test(").Code(name).Code(") ? Long.fromValue(" + name + ", true) :").Code(name).Code(")")
 			case build.Float, build.Double:
 				if empty {
 					dst.Code("(").Code(name).Code(" == null || ").Code(name).Code(".length == 0)").Code(" ? null : ")
-- 
2.43.0


From def6cf4ff9e40c3eebe1ce7b6482fbf98f341950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:17 +0000
Subject: [PATCH 84/91] fix: show null lists, maps and objects as nothing in
 TypeScript tables and forms

---
 pkg/typescript/ui.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/typescript/ui.go b/pkg/typescript/ui.go
index c4b4312..452adcc 100644
--- a/pkg/typescript/ui.go
+++ b/pkg/typescript/ui.go
@@ -292,10 +292,6 @@ func (b *Builder) printToString(dst *build.Writer, name string, expr ast.Expr, e
 				dst.Code(name)
 			}
 		}
-	case *ast.ArrayType:
-		dst.Code("\"\"+").Code(name)
-	case *ast.MapType:
-		dst.Code("\"\"+").Code(name)
 	case *ast.VarType:
 		t := expr.(*ast.VarType)
 		b.printToString(dst, name, t.Type(), t.Empty, digit, format, val)
@@ -303,6 +299,9 @@ func (b *Builder) printToString(dst *build.Writer, name string, expr ast.Expr, e
 			dst.Code(val)
 		}
 	default:
+		if empty || build.IsNil(expr) {
+			dst.Code("null == ").Code(name).Code(" ? \"\" : ")
+		}
 		dst.Code("\"\"+").Code(name)
 	}
 }
-- 
2.43.0


From ac03e655f6680bf8f5b705302d1abe86f5305d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:54 +0000
Subject: [PATCH 85/91] fix: end a line of documentation at Unicode line
 separators too

---
 pkg/ast/ast.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/ast/ast.go b/pkg/ast/ast.go
index 0983ea0..8133b9a 100644
--- a/pkg/ast/ast.go
+++ b/pkg/ast/ast.go
@@ -110,9 +110,12 @@ func (g *CommentGroup) Line() string {
 	if len(text) == 0 {
 		return ""
 	}
-	return strings.ReplaceAll(text, "\n", " ") + "\n"
+	return lineBreaks.Replace(text) + "\n"
 }
 
+// lineBreaks replaces what ends a line comment in any of the target languages.
+var lineBreaks = strings.NewReplacer("\n", " ", "\u2028", " ", "\u2029", " ")
+
 // isDirective reports whether c is a comment directive.
 func isDirective(c string) bool {
 	// "//line " is a line directive.
-- 
2.43.0


From 3bf5a1957631d1faa5ab64bb321178e8fcbd5f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:57 +0000
Subject: [PATCH 86/91] fix: keep a backslash before a u out of Java comments

---
 pkg/java/data.go   | 6 +++---
 pkg/java/enum.go   | 4 ++--
 pkg/java/java.go   | 6 ++++++
 pkg/java/server.go | 4 ++--
 4 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/pkg/java/data.go b/pkg/java/data.go
index dcf4b62..9adad74 100644
--- a/pkg/java/data.go
+++ b/pkg/java/data.go
@@ -14,7 +14,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 
 func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Line())
+		dst.Code("///" + docLine(typ.Doc))
 	}
 	dst.Code("\tinterface " + build.StringToHumpName(typ.Name.Name) + " extends Data")
 	if nil != typ.Extends {
@@ -23,7 +23,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 	dst.Code(" {\n")
 	for _, field := range typ.Fields.List {
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("\t/// Get " + field.Doc.Line())
+			dst.Code("\t/// Get " + docLine(field.Doc))
 		}
 		isSuper := build.CheckSuperField(field.Name.Name, typ)
 		if isSuper {
@@ -35,7 +35,7 @@ func (b *Builder) printData(dst *build.Writer, typ *ast.DataType) {
 		dst.Code("();\n\n")
 
 		if nil != field.Doc && 0 < len(field.Doc.Text()) {
-			dst.Code("\t/// Set " + field.Doc.Line())
+			dst.Code("\t/// Set " + docLine(field.Doc))
 		}
 		if isSuper {
 			dst.Code("\t@Override\n")
diff --git a/pkg/java/enum.go b/pkg/java/enum.go
index 0f1d872..38b3439 100644
--- a/pkg/java/enum.go
+++ b/pkg/java/enum.go
@@ -12,7 +12,7 @@ func (b *Builder) printEnumCode(dst *build.Writer, typ *ast.EnumType) {
 func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 	enumName := build.StringToHumpName(typ.Name.Name)
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Line())
+		dst.Code("///" + docLine(typ.Doc))
 	}
 	dst.Code("\tclass " + enumName)
 	dst.Code("\t{\n")
@@ -56,7 +56,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 
 	for _, item := range typ.Items {
 		if nil != item.Doc && 0 < len(item.Doc.Text()) {
-			dst.Code("///" + item.Doc.Line())
+			dst.Code("///" + docLine(item.Doc))
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
 		dst.Code("\t\tstatic final " + enumName + " " + itemName + " = new " + enumName + "(" + item.Id.Value + ", \"" + itemName + "\"")
diff --git a/pkg/java/java.go b/pkg/java/java.go
index 77ea949..c934074 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -293,3 +293,9 @@ func (b *Builder) getPackage(dst *build.Writer, expr ast.Expr, s string) string
 	dst.Import(name, "")
 	return ""
 }
+
+// docLine is the documentation as a single line. A backslash in front of a "u"
+// would start a Unicode escape even in a comment.
+func docLine(doc *ast.CommentGroup) string {
+	return strings.ReplaceAll(doc.Line(), "\\u", "&#92;u")
+}
diff --git a/pkg/java/server.go b/pkg/java/server.go
index 7296e0b..42bf8a6 100644
--- a/pkg/java/server.go
+++ b/pkg/java/server.go
@@ -18,7 +18,7 @@ func (b *Builder) printServerCode(dst *build.Writer, typ *ast.ServerType) {
 
 func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	if nil != typ.Doc && 0 < len(typ.Doc.Text()) {
-		dst.Code("///" + typ.Doc.Line())
+		dst.Code("///" + docLine(typ.Doc))
 	}
 	dst.Code("\tinterface " + build.StringToHumpName(typ.Name.Name))
 	if nil != typ.Extends {
@@ -28,7 +28,7 @@ func (b *Builder) printServer(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("{\n")
 	for _, method := range typ.Methods {
 		if nil != method.Doc && 0 < len(method.Doc.Text()) {
-			dst.Code("///" + method.Doc.Line())
+			dst.Code("///" + docLine(method.Doc))
 		}
 		if build.CheckSuperMethod(method.Name.Name, typ) {
 			dst.Code("\t@Override\n")
-- 
2.43.0


From 727f6ad0619d15295c72cc2206504443de382853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:22 +0000
Subject: [PATCH 87/91] fix: walk inherited members and methods once

---
 pkg/build/build.go | 20 ++++++++++++++------
 pkg/golang/data.go | 19 ++++++++++++++-----
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index b64a3cd..52c3869 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -427,11 +427,15 @@ func GetKeyValue(kvs []*ast.KeyValue, key string) (*ast.KeyValue, bool) {
 	return nil, false
 }
 
-func enumField(typ *ast.DataType, fields map[string]struct{}, call func(field *ast.Field, data *ast.DataType) error) error {
+func enumField(typ *ast.DataType, seen map[*ast.DataType]struct{}, fields map[string]struct{}, call func(field *ast.Field, data *ast.DataType) error) error {
+	if _, ok := seen[typ]; ok {
+		return nil
+	}
+	seen[typ] = struct{}{}
 	for _, extend := range typ.Extends {
 		types := extend.Name.Obj.Decl.(*ast.TypeSpec)
 		data := types.Type.(*ast.DataType)
-		err := enumField(data, fields, call)
+		err := enumField(data, seen, fields, call)
 		if err != nil {
 			return err
 		}
@@ -451,7 +455,7 @@ func enumField(typ *ast.DataType, fields map[string]struct{}, call func(field *a
 }
 func EnumField(typ *ast.DataType, call func(field *ast.Field, data *ast.DataType) error) error {
 	fields := map[string]struct{}{}
-	return enumField(typ, fields, call)
+	return enumField(typ, map[*ast.DataType]struct{}{}, fields, call)
 }
 
 // DataFile returns the file that declares data, the one whose names its tags refer to.
@@ -472,7 +476,11 @@ func CheckSuperField(name string, typ *ast.DataType) bool {
 	return false
 }
 
-func enumMethod(typ *ast.ServerType, fields map[string]struct{}, call func(method *ast.FuncType, server *ast.ServerType) error) error {
+func enumMethod(typ *ast.ServerType, seen map[*ast.ServerType]struct{}, fields map[string]struct{}, call func(method *ast.FuncType, server *ast.ServerType) error) error {
+	if _, ok := seen[typ]; ok {
+		return nil
+	}
+	seen[typ] = struct{}{}
 	for _, field := range typ.Methods {
 		if _, ok := fields[field.Name.Name]; ok {
 			continue
@@ -487,7 +495,7 @@ func enumMethod(typ *ast.ServerType, fields map[string]struct{}, call func(metho
 	for _, extend := range typ.Extends {
 		types := extend.Name.Obj.Decl.(*ast.TypeSpec)
 		server := types.Type.(*ast.ServerType)
-		err := enumMethod(server, fields, call)
+		err := enumMethod(server, seen, fields, call)
 		if err != nil {
 			return err
 		}
@@ -497,7 +505,7 @@ func enumMethod(typ *ast.ServerType, fields map[string]struct{}, call func(metho
 
 func EnumMethod(typ *ast.ServerType, call func(method *ast.FuncType, server *ast.ServerType) error) error {
 	fields := map[string]struct{}{}
-	return enumMethod(typ, fields, call)
+	return enumMethod(typ, map[*ast.ServerType]struct{}{}, fields, call)
 }
 
 func CheckSuperMethod(name string, typ *ast.ServerType) bool {
diff --git a/pkg/golang/data.go b/pkg/golang/data.go
index 2a75ac4..8fa27d3 100644
--- a/pkg/golang/data.go
+++ b/pkg/golang/data.go
@@ -26,7 +26,7 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 	nameLen := 0
 	typLen := 0
 	tagLen := 0
-	members := append(typ.Fields.List[:len(typ.Fields.List):len(typ.Fields.List)], sharedFields(typ)...)
+	members := append(typ.Fields.List[:len(typ.Fields.List):len(typ.Fields.List)], sharedFields(typ, map[*ast.DataType][]*ast.Field{})...)
 	fields := make([]dataField, len(members))
 	for i, field := range members {
 		temp := build.NewWriter()
@@ -113,13 +113,17 @@ func (b *Builder) printDataCode(dst *build.Writer, typ *ast.DataType) {
 }
 
 // sharedFields lists the members that typ inherits through several bases at the same depth. Go promotes none of them,
-// so that typ must declare them itself.
-func sharedFields(typ *ast.DataType) []*ast.Field {
-	var ret []*ast.Field
+// so that typ must declare them itself. done holds the types that are done with.
+func sharedFields(typ *ast.DataType, done map[*ast.DataType][]*ast.Field) []*ast.Field {
+	ret, ok := done[typ]
+	if ok {
+		return ret
+	}
 	seen := map[string]bool{}
 	for _, field := range typ.Fields.List {
 		seen[build.StringToHumpName(field.Name.Name)] = true
 	}
+	above := map[*ast.DataType]struct{}{}
 	level := map[*ast.DataType]int{typ: 1}
 	order := []*ast.DataType{typ}
 	for 0 < len(order) {
@@ -128,6 +132,9 @@ func sharedFields(typ *ast.DataType) []*ast.Field {
 		for _, data := range order {
 			for _, extend := range data.Extends {
 				base := extend.Name.Obj.Decl.(*ast.TypeSpec).Type.(*ast.DataType)
+				if _, ok := above[base]; ok {
+					continue
+				}
 				if 0 == next[base] {
 					bases = append(bases, base)
 				}
@@ -139,7 +146,8 @@ func sharedFields(typ *ast.DataType) []*ast.Field {
 		count := map[string]int{}
 		var found []*ast.Field
 		for _, base := range bases {
-			for _, field := range append(base.Fields.List[:len(base.Fields.List):len(base.Fields.List)], sharedFields(base)...) {
+			above[base] = struct{}{}
+			for _, field := range append(base.Fields.List[:len(base.Fields.List):len(base.Fields.List)], sharedFields(base, done)...) {
 				name := build.StringToHumpName(field.Name.Name)
 				if 0 == count[name] && !seen[name] {
 					found = append(found, field)
@@ -156,6 +164,7 @@ func sharedFields(typ *ast.DataType) []*ast.Field {
 		}
 		level, order = next, bases
 	}
+	done[typ] = ret
 	return ret
 }
 
-- 
2.43.0


From 0268da0dca119b9021e3ee0c8c63d3a09e7333d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:53 +0000
Subject: [PATCH 88/91] fix: look into each base of bound data once

---
 pkg/build/binding.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/build/binding.go b/pkg/build/binding.go
index d035591..730bfb9 100644
--- a/pkg/build/binding.go
+++ b/pkg/build/binding.go
@@ -79,12 +79,20 @@ func MethodData(typ *ast.VarType) *ast.DataType {
 // BasePath lists the names that lead from data to its direct or indirect base,
 // nil if it is no base of data.
 func BasePath(data *ast.DataType, base *ast.DataType) []*ast.Ident {
+	return basePath(data, base, map[*ast.DataType]struct{}{})
+}
+
+func basePath(data *ast.DataType, base *ast.DataType, seen map[*ast.DataType]struct{}) []*ast.Ident {
+	if _, ok := seen[data]; ok {
+		return nil
+	}
+	seen[data] = struct{}{}
 	for _, extend := range data.Extends {
 		parent := extend.Name.Obj.Decl.(*ast.TypeSpec).Type.(*ast.DataType)
 		if parent == base {
 			return []*ast.Ident{extend.Name}
 		}
-		if path := BasePath(parent, base); nil != path {
+		if path := basePath(parent, base, seen); nil != path {
 			return append([]*ast.Ident{extend.Name}, path...)
 		}
 	}
-- 
2.43.0


From 4289e2f6adbc588f98d59ec78ee367e3486f8676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:15 +0000
Subject: [PATCH 89/91] fix: write ids as decimal numbers

---
 pkg/build/build.go       | 9 +++++++++
 pkg/dart/data.go         | 2 +-
 pkg/dart/enum.go         | 2 +-
 pkg/dart/server.go       | 4 ++--
 pkg/golang/enum.go       | 2 +-
 pkg/java/enum.go         | 2 +-
 pkg/java/server.go       | 2 +-
 pkg/typescript/enum.go   | 2 +-
 pkg/typescript/server.go | 2 +-
 9 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 52c3869..706c006 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -351,6 +351,15 @@ func (b *Builder) checkDataMapKey(file *ast.File, varType *ast.VarType) error {
 	}
 }
 
+// GetNumber gives the number of a literal in decimal, the notation that every target
+// reads alike: 010 is another number in Dart, and 0b1 or 0o17 no number in some.
+func GetNumber(literal string) string {
+	if n, ok := new(big.Int).SetString(literal, 0); ok {
+		return n.String()
+	}
+	return literal
+}
+
 // sameId says whether two id literals stand for the same number, 16 and 0x10 say.
 func sameId(a, b string) bool {
 	x, ok := new(big.Int).SetString(a, 0)
diff --git a/pkg/dart/data.go b/pkg/dart/data.go
index f324b61..6cbfe6f 100644
--- a/pkg/dart/data.go
+++ b/pkg/dart/data.go
@@ -615,7 +615,7 @@ func firstValue(obj *ast.Object) string {
 	if 0 == len(items) {
 		return "0"
 	}
-	return items[0].Id.Value
+	return build.GetNumber(items[0].Id.Value)
 }
 
 // printToKey writes a key of a map, which JSON only has as text
diff --git a/pkg/dart/enum.go b/pkg/dart/enum.go
index 9d4f224..0c0b286 100644
--- a/pkg/dart/enum.go
+++ b/pkg/dart/enum.go
@@ -60,7 +60,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 			dst.Code("\t///" + item.Doc.Line())
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
-		dst.Code("\tstatic final " + itemName + " = " + enumName + "._(" + item.Id.Value + ", '" + build.StringToHumpName(item.Name.Name) + "'")
+		dst.Code("\tstatic final " + itemName + " = " + enumName + "._(" + build.GetNumber(item.Id.Value) + ", '" + build.StringToHumpName(item.Name.Name) + "'")
 		if isUi {
 			dst.Code(", (context) => " + enumName + "Localizations.of(context)." + itemName)
 		}
diff --git a/pkg/dart/server.go b/pkg/dart/server.go
index 3829c28..a136b2d 100644
--- a/pkg/dart/server.go
+++ b/pkg/dart/server.go
@@ -73,7 +73,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code(build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
 		dst.Code("\", ")
 		//TODO dst.Code(server.Id.Value + " << 32 | " + method.Id.Value)
-		dst.Code("0 << 32 | " + method.Id.Value)
+		dst.Code("0 << 32 | " + build.GetNumber(method.Id.Value))
 		dst.Code(", ")
 		dst.Code(build.StringToFirstLower(method.ParamName.Name))
 		dst.Code(", ")
@@ -137,7 +137,7 @@ func (b *Builder) printServerRouter(dst *build.Writer, typ *ast.ServerType) {
 	dst.Code("    _invokeIds = {\n")
 	_ = build.EnumMethod(typ, func(method *ast.FuncType, server *ast.ServerType) error {
 		//dst.Code("        " + server.Id.Value + " << 32 | " + method.Id.Value + ": ServerInvoke(\n")
-		dst.Code("        0 << 32 | " + method.Id.Value + ": ServerInvoke(\n")
+		dst.Code("        0 << 32 | " + build.GetNumber(method.Id.Value) + ": ServerInvoke(\n")
 		dst.Code("        toData: (List<int> buf) async {\n")
 		dst.Code("          return ")
 		b.printType(dst, method.Param.Type(), false)
diff --git a/pkg/golang/enum.go b/pkg/golang/enum.go
index 1b07061..e9a885f 100644
--- a/pkg/golang/enum.go
+++ b/pkg/golang/enum.go
@@ -22,7 +22,7 @@ func printEnumCode(dst *build.Writer, typ *ast.EnumType) {
 		if nil != item.Doc && 0 < len(item.Doc.Text()) {
 			dst.Code("// " + name + itemName + " " + item.Doc.Line())
 		}
-		dst.Code("const " + name + itemName + " " + name + " = " + item.Id.Value + "\n\n")
+		dst.Code("const " + name + itemName + " " + name + " = " + build.GetNumber(item.Id.Value) + "\n\n")
 	}
 
 	dst.Code("func (e " + name + ") Pointer() *" + name + " {\n")
diff --git a/pkg/java/enum.go b/pkg/java/enum.go
index 38b3439..036df78 100644
--- a/pkg/java/enum.go
+++ b/pkg/java/enum.go
@@ -59,7 +59,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 			dst.Code("///" + docLine(item.Doc))
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
-		dst.Code("\t\tstatic final " + enumName + " " + itemName + " = new " + enumName + "(" + item.Id.Value + ", \"" + itemName + "\"")
+		dst.Code("\t\tstatic final " + enumName + " " + itemName + " = new " + enumName + "(" + build.GetNumber(item.Id.Value) + ", \"" + itemName + "\"")
 		dst.Code(");\n")
 	}
 	dst.Code("\n")
diff --git a/pkg/java/server.go b/pkg/java/server.go
index 42bf8a6..0b4a9fc 100644
--- a/pkg/java/server.go
+++ b/pkg/java/server.go
@@ -85,7 +85,7 @@ func (b *Builder) printServerClient(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code(build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
 		dst.Code("\", ")
 		//TODO dst.Code(server.Id.Value + " << 32 | " + method.Id.Value)
-		dst.Code("0 << 32 | " + method.Id.Value)
+		dst.Code("0 << 32 | " + build.GetNumber(method.Id.Value))
 		dst.Code(", ")
 		dst.Code(build.StringToFirstLower(method.ParamName.Name))
 		if "void" == method.Result.Type().(*ast.Ident).Name {
diff --git a/pkg/typescript/enum.go b/pkg/typescript/enum.go
index 6f95cd6..c878131 100644
--- a/pkg/typescript/enum.go
+++ b/pkg/typescript/enum.go
@@ -48,7 +48,7 @@ func (b *Builder) printEnum(dst *build.Writer, typ *ast.EnumType) {
 		}
 		itemName := build.StringToAllUpper(item.Name.Name)
 		dst.Code("\tpublic static readonly " + itemName + " = new " + enumName + "(")
-		dst.Code(item.Id.Value + ", \"" + build.StringToHumpName(item.Name.Name) + "\"")
+		dst.Code(build.GetNumber(item.Id.Value) + ", \"" + build.StringToHumpName(item.Name.Name) + "\"")
 		dst.Code(");\n\n")
 	}
 	dst.Code("\n")
diff --git a/pkg/typescript/server.go b/pkg/typescript/server.go
index 1d3457b..e7d30b5 100644
--- a/pkg/typescript/server.go
+++ b/pkg/typescript/server.go
@@ -97,7 +97,7 @@ func (b *Builder) printServerImp(dst *build.Writer, typ *ast.ServerType) {
 		dst.Code(">(\"")
 		dst.Code(build.StringToUnderlineName(typ.Name.Name) + "/" + build.StringToUnderlineName(method.Name.Name))
 		dst.Code("\", ")
-		dst.Code("0 << 32 | " + method.Id.Value)
+		dst.Code("0 << 32 | " + build.GetNumber(method.Id.Value))
 		dst.Code(", ")
 		dst.Code(build.StringToFirstLower(method.ParamName.Name))
 		dst.Code(", ")
-- 
2.43.0


From 903e336959af816614043369a331dee7d0427977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:52 +0000
Subject: [PATCH 90/91] fix: refuse files whose outputs have the same name

---
 pkg/build/build.go | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/pkg/build/build.go b/pkg/build/build.go
index 706c006..84a28bb 100644
--- a/pkg/build/build.go
+++ b/pkg/build/build.go
@@ -140,6 +140,10 @@ func Build(out string, in string, typ string, pack string) error {
 	if err != nil {
 		return err
 	}
+	err = build.checkOutputs(typ)
+	if err != nil {
+		return err
+	}
 
 	for _, path := range build.paths() {
 		file := build.pkg.Files[path]
@@ -167,6 +171,41 @@ func (b *Builder) paths() []string {
 	return paths
 }
 
+// checkOutputs reports a file whose output would replace that of another one: the
+// output is named after the file alone, whatever directory the file is in.
+func (b *Builder) checkOutputs(typ string) error {
+	outputs := map[string]string{}
+	for _, path := range b.paths() {
+		file := b.pkg.Files[path]
+		name := strings.TrimSuffix(filepath.Base(path), ".hbuf")
+		if "go" == typ || "java" == typ {
+			pack, ok := file.Packages[typ]
+			if !ok {
+				continue
+			}
+			if "go" == typ {
+				name = pack.Value.Value + name
+			} else {
+				name = StringToHumpName(name)
+			}
+		}
+		for _, spec := range file.Specs {
+			t, ok := spec.(*ast.TypeSpec)
+			if !ok {
+				continue
+			}
+			if other, ok := outputs[name]; ok && other != path {
+				return scanner.Error{
+					Pos: b.fset.Position(t.Name.Pos()),
+					Msg: "Output has the same name as that of " + other,
+				}
+			}
+			outputs[name] = path
+		}
+	}
+	return nil
+}
+
 func (b *Builder) checkFiles() error {
 	for _, path := range b.paths() {
 		file := b.pkg.Files[path]
-- 
2.43.0


From 4091724c24fdeac58bb85a517582d1e80723a5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:15 +0000
Subject: [PATCH 91/91] fix: report errors of writing output files

---
 pkg/dart/dart.go             | 13 ++-----------
 pkg/golang/gloang.go         | 14 ++------------
 pkg/java/java.go             | 14 ++------------
 pkg/typescript/typescript.go | 13 ++-----------
 4 files changed, 8 insertions(+), 46 deletions(-)

diff --git a/pkg/dart/dart.go b/pkg/dart/dart.go
index 63718e1..1d2e3c0 100644
--- a/pkg/dart/dart.go
+++ b/pkg/dart/dart.go
@@ -143,16 +143,7 @@ func (b *Builder) GetDataType(file *ast.File, name string) *ast.Object {
 }
 
 func writerFile(data *build.Writer, out string) error {
-	fc, err := os.Create(out)
-	if err != nil {
-		return err
-	}
-	defer func(fc *os.File) {
-		err := fc.Close()
-		if err != nil {
-			print(err)
-		}
-	}(fc)
+	var fc strings.Builder
 	_, _ = fc.WriteString("// @dart = 2.12\n\n")
 	if 0 < len(data.GetImports()) {
 		imps := make([]string, len(data.GetImports()))
@@ -170,7 +161,7 @@ func writerFile(data *build.Writer, out string) error {
 	_, _ = fc.WriteString("\n")
 
 	_, _ = fc.WriteString(data.GetCode().String())
-	return nil
+	return os.WriteFile(out, []byte(fc.String()), 0666)
 }
 
 func (b *Builder) Node(dst *DartWriter, fset *token.FileSet, node interface{}) error {
diff --git a/pkg/golang/gloang.go b/pkg/golang/gloang.go
index 1f7fbbe..707d307 100644
--- a/pkg/golang/gloang.go
+++ b/pkg/golang/gloang.go
@@ -139,17 +139,7 @@ func Build(file *ast.File, fSet *token.FileSet, param *build.Param) error {
 }
 
 func (b *Builder) writerFile(data *build.Writer, packages string, out string, i int) error {
-	fc, err := os.Create(out)
-	if err != nil {
-		return err
-	}
-	defer func(fc *os.File) {
-		err := fc.Close()
-		if err != nil {
-			print(err)
-		}
-	}(fc)
-
+	var fc strings.Builder
 	_, _ = fc.WriteString("package " + packages[strings.LastIndex(packages, ".")+1:] + "\n\n")
 
 	if 0 < len(data.GetImports()) {
@@ -174,7 +164,7 @@ func (b *Builder) writerFile(data *build.Writer, packages string, out string, i
 	}
 	code := data.GetCode().String()
 	_, _ = fc.WriteString(code[:len(code)-1])
-	return nil
+	return os.WriteFile(out, []byte(fc.String()), 0666)
 }
 
 func (b *Builder) Node(dst *GoWriter, fset *token.FileSet, node interface{}) error {
diff --git a/pkg/java/java.go b/pkg/java/java.go
index c934074..d5f7a86 100644
--- a/pkg/java/java.go
+++ b/pkg/java/java.go
@@ -136,17 +136,7 @@ func (b *Builder) GetDataType(file *ast.File, name string) *ast.Object {
 }
 
 func writerFile(data *build.Writer, packages string, out string) error {
-	fc, err := os.Create(out)
-	if err != nil {
-		return err
-	}
-	defer func(fc *os.File) {
-		err := fc.Close()
-		if err != nil {
-			print(err)
-		}
-	}(fc)
-
+	var fc strings.Builder
 	_, _ = fc.WriteString("package " + packages + ";\n\n")
 
 	if 0 < len(data.GetImports()) {
@@ -164,7 +154,7 @@ func writerFile(data *build.Writer, packages string, out string) error {
 	}
 	_, _ = fc.WriteString("\n")
 	_, _ = fc.WriteString(data.GetCode().String())
-	return nil
+	return os.WriteFile(out, []byte(fc.String()), 0666)
 }
 
 func (b *Builder) Node(dst *JavaWriter, fset *token.FileSet, node interface{}) error {
diff --git a/pkg/typescript/typescript.go b/pkg/typescript/typescript.go
index f60fcc4..3f802d1 100644
--- a/pkg/typescript/typescript.go
+++ b/pkg/typescript/typescript.go
@@ -159,16 +159,7 @@ func (b *Builder) GetDataType(file *ast.File, name string) *ast.Object {
 }
 
 func writerFile(data *build.Writer, out string) error {
-	fc, err := os.Create(out)
-	if err != nil {
-		return err
-	}
-	defer func(fc *os.File) {
-		err := fc.Close()
-		if err != nil {
-			print(err)
-		}
-	}(fc)
+	var fc strings.Builder
 	if 0 < len(data.GetImports()) {
 		imps := make([]string, len(data.GetImports()))
 
@@ -186,7 +177,7 @@ func writerFile(data *build.Writer, out string) error {
 	_, _ = fc.WriteString("\n")
 
 	_, _ = fc.WriteString(data.GetCode().String())
-	return nil
+	return os.WriteFile(out, []byte(fc.String()), 0666)
 }
 
 func (b *Builder) Node(dst *DartWriter, fset *token.FileSet, node interface{}) error {
-- 
2.43.0

