exec(open("/tmp/seeds/dbcommon.py").read())
id="sql-map-window-order"; property="C19"
needs="a map request with an order, a limit and more rows than the limit"
breaks="the rows of a limited map are not the first ones of the requested order"
edits=[("pkg/golang/database.go",'''	kType, KName, ok := b.getKey(dst, fields, keyName)
	if !ok {
		return
	}
	fName := build.StringToHumpName(fType.Name.Name)
	dName := b.getPackage(dst, typ.Name) + build.StringToHumpName(typ.Name.Name)
	if typ != fType {
		key = "self"
	}
	w := b.getParamWhere(dst, wFields, true, true, true)''','''	kType, KName, ok := b.getKey(dst, fields, keyName)
	if !ok {
		return
	}
	fName := build.StringToHumpName(fType.Name.Name)
	dName := b.getPackage(dst, typ.Name) + build.StringToHumpName(typ.Name.Name)
	if typ != fType {
		key = "self"
	}
	// maps have no order
	w := b.getParamWhere(dst, wFields, true, false, true)''')]
files=dbgen('''package go = "a"
[db: name = "t_row"]
data Row {
	[db: name = "id"; key = "true"]
	int64 id = 1
	[db: name = "note"]
	string? note = 2
}
[db: table = "Row"; map = "id:parent"]
data RowReq {
	[db: order = "note $"]
	string order = 1
	[db: limit = "?"]
	int32 limit = 2
}
''','''	a.RowReq{Order: "DESC", Limit: 3}.DbMap(ctx)
	if !strings.Contains(e.text, "DESC") { panic(e.text) }
''')
