exec(open("/tmp/seeds/common.py").read())
id="java-map-primitive"; property="C28"
needs="a member that is a map whose values are of a numeric or bool type and not nullable"
breaks="values of maps are printed as primitive types when not nullable: Map<String, int> is not Java"
edits=[("pkg/java/java.go","\t\tb.printType(dst, ma.VType, false)","\t\tb.printType(dst, ma.VType, true)")]
files=javagen({"x.hbuf": '''package java = "gen"
data sub {
  int32 a = 1
}
data one {
  string<int64> names = 1
  sub<string> subs = 2
  uint32<string> counts = 3
  int32? n = 4
}
'''}, '''import gen.XData.*;
import java.util.*;
public class Main {
    public static void main(String[] a) {
        OneImpl o = new OneImpl();
        Map<String, Long> c = new HashMap<>();
        c.put("k", 7L);
        o.setCounts(c);
        if (o.getCounts().get("k") != 7L) System.exit(1);
    }
}
''')
