GOTEST='''#!/bin/bash
# Runs demo_test.go.txt inside package %(pkg)s through an overlay.
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off
t="$(mktemp -d)" || exit 2
trap '/bin/rm -rf "$t"' EXIT
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$here/demo_test.go.txt" > "$t/o.json"
timeout 120 go test %(flags)s -vet=off -count=1 -timeout 60s -run ZZDemo -overlay "$t/o.json" "./%(pkg)s"
'''
def gotest(pkg, body, flags=""):
    return {"demo.sh": GOTEST % dict(pkg=pkg, flags=flags), "demo_test.go.txt": body}
CLI='''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off
t="$(mktemp -d)" || exit 2
trap '/bin/rm -rf "$t"' EXIT
go build -o "$t/hbuf" ./cmd || exit 2
cd "$t" || exit 2
mkdir in
%s
'''
def cli(body): return {"demo.sh": CLI % body}
import glob as _glob, os as _os
GOGEN='''#!/bin/bash
# Generates Go code for in/*.hbuf, builds it against the stand-in runtime beside this script and runs main.
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod GONOSUMDB=* GOSUMDB=off
t="$(mktemp -d)" || exit 2
trap '/bin/rm -rf "$t"' EXIT
go build -o "$t/hbuf" ./cmd || exit 2
cd "$t" || exit 2
cp -r "$here/in" in
./hbuf -i "$t/in/*.hbuf" -o "$t/m/p" -t go -p gen/p/ || exit 1
cd m || exit 2
cp -r "$here/hbuf_golang" hbuf_golang
mv hbuf_golang/go.mod.txt hbuf_golang/go.mod
printf 'module gen\\n\\ngo 1.21\\n\\nrequire (\\n\\tgithub.com/shopspring/decimal v1.4.0\\n\\tgithub.com/wskfjtheqian/hbuf_golang v1.0.12\\n)\\n\\nreplace github.com/wskfjtheqian/hbuf_golang => ./hbuf_golang\\n' > go.mod
cp "$here/main.go.txt" main.go
timeout 200 go run .
'''
def gogen(schemas, main):
    """schemas: name -> text; main: the Go program, imports gen/p/..."""
    f = {"demo.sh": GOGEN, "main.go.txt": main}
    for n, t in schemas.items(): f["in/" + n] = t
    base = "/verif/shim/hbuf_golang/"
    for d, _, ns in _os.walk(base):
        for n in ns:
            p = _os.path.join(d, n); r = p[len(base):]
            if r == "go.mod": r = "go.mod.txt"
            f["hbuf_golang/" + r] = open(p).read()
    return f
TSGEN='''#!/bin/bash
# Generates TypeScript for in/*.hbuf, compiles it strictly with main.ts against the stand-in modules beside this script and runs main.
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off
t="$(mktemp -d)" || exit 2
trap '/bin/rm -rf "$t"' EXIT
go build -o "$t/hbuf" ./cmd || exit 2
cd "$t" || exit 2
cp -r "$here/in" in
./hbuf -i "$t/in/*.hbuf" -o "$t/src/out" -t ts || exit 1
cp -r "$here/modules" node_modules
cp "$here/main.ts.txt" src/main.ts
cat > tsconfig.json <<'X'
{"compilerOptions": {"target": "es2020", "module": "commonjs", "moduleResolution": "node10", "strict": true, "esModuleInterop": true,
"jsx": "react", "jsxFactory": "_vh", "jsxFragmentFactory": "_vf", "outDir": "js", "rootDir": "src", "types": [], "lib": ["es2020"], "ignoreDeprecations": "5.0"},
"include": ["src/**/*"]}
X
node /opt/veriftools/node/node_modules/typescript/bin/tsc -p tsconfig.json || exit 1
timeout 60 node js/main.js
'''
def tsgen(schemas, main):
    f = {"demo.sh": TSGEN, "main.ts.txt": main}
    for n, t in schemas.items(): f["in/" + n] = t
    base = "/verif/shim/ts/modules/"
    for d, _, ns in _os.walk(base):
        for n in ns:
            p = _os.path.join(d, n); f["modules/" + p[len(base):]] = open(p).read()
    return f
JAVAGEN='''#!/bin/bash
# Generates Java for in/*.hbuf, compiles it with Main.java against the stand-in runtime beside this script and runs Main.
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off
t="$(mktemp -d)" || exit 2
trap '/bin/rm -rf "$t"' EXIT
go build -o "$t/hbuf" ./cmd || exit 2
cd "$t" || exit 2
cp -r "$here/in" in
./hbuf -i "$t/in/*.hbuf" -o "$t/src/gen" -t java || exit 1
for f in Data Server; do mkdir -p src/com/hbuf/java; cp "$here/com/$f.java.txt" src/com/hbuf/java/$f.java; done
cp "$here/Main.java.txt" src/Main.java
find src -name '*.java' > files
javac -nowarn -proc:none -encoding UTF-8 -d classes @files || exit 1
timeout 60 java -cp classes Main
'''
def javagen(schemas, main):
    """main: the Main class; the schemas' java packages are used as they are."""
    f = {"demo.sh": JAVAGEN, "Main.java.txt": main}
    for n, t in schemas.items(): f["in/" + n] = t
    for n in ("Data", "Server"):
        f["com/%s.java.txt" % n] = open("/verif/shim/java/com/hbuf/java/%s.java" % n).read()
    return f
