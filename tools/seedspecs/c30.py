exec(open("/tmp/seeds/common.py").read())
id="lang-later-language"; property="C30"
needs="a language that only a later item or member has a text in"
breaks="languages that the first text of a table does not have are left out of the table"
edits=[("pkg/build/language.go","""	l.Lang[field] = lang
	l.Key["en"] = struct{}{}
""","""	l.Lang[field] = lang
	if 1 < len(l.Key) {
		return
	}
	l.Key["en"] = struct{}{}
""")]
files=tsgen({"a.hbuf":'''[ui: form="false"]
enum Kind {
	[lang: zh="一"]
	one = 0
	[lang: zh="二"; fr="deux"]
	two = 1
	three = 2
}
'''},'''import { kindLang } from "./out/a.lang"
const l: any = kindLang
if (l.zh.One !== "一" || l.zh.Two !== "二") throw new Error("zh")
if (!l.fr || l.fr.Two !== "deux" || l.fr.Three !== "Three") throw new Error("fr")
''')
