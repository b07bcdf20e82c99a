exec(open("/tmp/seeds/common.py").read())
id="pos-cache-rlock"; property="C03"
needs="two goroutines resolving positions in different files at the same time"
breaks="the cache of the last file is written while only a read lock is held: a data race"
edits=[("pkg/token/position.go","""			s.mutex.RUnlock()
			s.mutex.Lock()
			s.last = f // race is ok - s.last is only a cache
			s.mutex.Unlock()
			return f""","""			s.last = f // race is ok - s.last is only a cache
			s.mutex.RUnlock()
			return f""")]
files=gotest("pkg/token",'''package token
import ("testing";"sync")
func TestZZDemo(t *testing.T){
	fs := NewFileSet(); a := fs.AddFile("a", -1, 5); b := fs.AddFile("b", -1, 7); fs.AddFile("c", -1, 2)
	var w sync.WaitGroup
	for _, f := range []*File{a, b, a, b} { w.Add(1); go func(f *File){ defer w.Done(); for i := 0; i < 2000; i++ { fs.Position(f.Pos(1)) } }(f) }
	w.Wait()
}
''',"-race")
