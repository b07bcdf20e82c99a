exec(open("/tmp/seeds/dbcommon.py").read())
id="sql-force-null"; property="C18"
needs="an update with a forced nullable member that is null"
breaks="an update leaves a forced member alone when it is null"
edits=[("pkg/golang/database.go",'''		if isNil && build.IsNil(field.Field.Type) && !field.Dbs[0].Force {
			name := build''','''		if optional := isNil && build.IsNil(field.Field.Type) && !(field.Dbs[0].Force && build.IsArray(field.Field.Type)); optional {
			name := build'''),("pkg/golang/database.go",'''		if isNil && build.IsNil(field.Field.Type) && !field.Dbs[0].Force {
			dst.Code("\\t}\\n")''','''		if isNil && build.IsNil(field.Field.Type) && !(field.Dbs[0].Force && build.IsArray(field.Field.Type)) {
			dst.Code("\\t}\\n")''')]
files=dbgen('''package go = "a"
[db: name = "t_row"; update = "self"]
data Row {
	[db: name = "id"; key = "true"]
	int64 id = 1
	[db: name = "note"; force = "true"]
	string? note = 2
	[db: name = "size"]
	int32? size = 3
}
''','''	_, _, err := a.Row{Id: 4, Size: p(int32(3))}.DbUpdate(ctx)
	if err != nil || !strings.Contains(e.text, "note") { panic(e.text) }
''')
