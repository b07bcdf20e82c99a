exec(open("/tmp/seeds/common.py").read())
id="name-acronym"; property="C26"
needs="a name with adjacent capital letters"
breaks="the constant form keeps runs of capitals together while the snake form splits them"
edits=[("pkg/build/build.go","""func StringToAllUpper(val string) string {
	if 0 == len(val) {
		return val
	}

	rex := regexp.MustCompile(`[A-Z_]`)""","""func StringToAllUpper(val string) string {
	if 0 == len(val) {
		return val
	}

	rex := regexp.MustCompile(`[A-Z]+|_`)""")]
files=gotest("pkg/build",'''package build
import ("testing";"strings")
func TestZZDemo(t *testing.T){
	for _, n := range []string{"userName","userURL","UserID2","a_b"} {
		if a, b := StringToAllUpper(n), strings.ToUpper(StringToUnderlineName(n)); a != b { t.Fatalf("%s: %s and %s", n, a, b) }
	}
}
''')
