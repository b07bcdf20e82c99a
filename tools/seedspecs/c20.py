exec(open("/tmp/seeds/dbcommon.py").read())
id="cache-remove-soft"; property="C20"
needs="a cached table with soft deletion, a read, a removal and the read again"
breaks="removing rows of a table with soft deletion does not drop the cached answers"
edits=[("pkg/golang/database.go",'''		b.printRemoveData(dst, dbs[0], w, fType, nil != c)''','''		// rows of tables with soft deletion are removed after they were deleted
		b.printRemoveData(dst, dbs[0], w, fType, nil != c && !dbs[0].Fake)''')]
files=dbgen('''package go = "a"
[db: name = "t_row"; rm = "true"]
[cache: min = "10"; max = "20"]
data Row {
	[db: name = "id"; key = "true"]
	int64 id = 1
}
''','''	s := cache.NewStore()
	s.Entries["db:t_row:k"] = "1"
	ctx = cache.With(ctx, s)
	if _, _, err := (a.Row{Id: 4}).DbRemove(ctx); err != nil { panic(err) }
	dropped, unlocked := false, false
	for _, v := range s.Log { dropped = dropped || v.Op == "del"; unlocked = unlocked || v.Op == "unlock" }
	if !dropped || !unlocked || len(s.Entries) != 0 { panic("not dropped") }
''')
