exec(open("/tmp/seeds/dbcommon.py").read())
id="sql-empty-text-condition"; property="C17"
needs="a nullable text condition that holds an empty text"
breaks="the condition vanishes for an empty text, so the statement's text depends on the contents (and a soft delete hits every row)"
edits=[("pkg/golang/database.go",'''						where.Code("\\tif nil != g." + fieldName + " {\\n")
''','''						where.Code("\\tif nil != g." + fieldName)
						if v, ok := field.Field.Type.(*ast.VarType); ok {
							if name, ok := v.TypeExpr.(*ast.Ident); ok && "string" == name.Name {
								where.Code(" && 0 < len(*g." + fieldName + ")")
							}
						}
						where.Code(" {\\n")
''')]
files=dbgen('''package go = "a"
[db: name = "t_row"]
data Row {
	[db: name = "id"; key = "true"]
	int64 id = 1
	[db: name = "note"]
	string? note = 2
}
[db: table = "Row"; del = "true"]
data RowReq {
	[db: where = "AND note = ?"]
	string? note = 1
}
''','''	var texts []string
	for _, s := range []string{"x", "", "y"} {
		_, _, err := a.RowReq{Note: p(s)}.DbDel(ctx)
		if err != nil || len(e.args) != 1 { panic("no condition for " + s + ": " + e.text) }
		texts = append(texts, e.text)
	}
	if texts[0] != texts[1] || texts[1] != texts[2] { panic("texts differ") }
''')
