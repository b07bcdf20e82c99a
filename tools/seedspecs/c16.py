exec(open("/tmp/seeds/common.py").read())
id="java-route-words"; property="C16"
needs="a server whose name has several words"
breaks="the Java client calls under the lower-cased name of the server, the routers of the other languages listen under the underlined one"
edits=[("pkg/java/server.go","""		dst.Code("\\t\\t\\treturn \\"" + build.StringToUnderlineName(typ.Name.Name) + "\\";\\n")""".replace("\t\tdst","\tdst",1),"""	dst.Code("\\t\\t\\treturn \\"" + strings.ToLower(typ.Name.Name) + "\\";\\n")"""),("pkg/java/server.go",'''	"hbuf/pkg/build"
)''','''	"hbuf/pkg/build"
	"strings"
)''')]
files=javagen({"x.hbuf": '''package java = "gen"
data Req {
  int32 a = 1
}
server OrderStore {
  Req put(Req req) = 1
}
server shop {
  Req get(Req req) = 1
}
'''}, '''import gen.XServer.*;
public class Main {
    public static void main(String[] a) throws Exception {
        if (!new OrderStoreClient(null).getName().equals("order_store")) throw new Exception("name");
        if (!new ShopClient(null).getName().equals("shop")) throw new Exception("name");
    }
}
''')
