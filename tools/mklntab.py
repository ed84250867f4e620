# writes spec/VgLnTab.tla: round(1e5 * ln n) for n = 1..2048
import math
v=[round(1e5*math.log(n)) for n in range(1,2049)]
rows=[", ".join(map(str,v[i:i+16])) for i in range(0,2048,16)]
open("/verif/spec/VgLnTab.tla","w").write("---- MODULE VgLnTab ----\n(* round(100000 * ln n), n = 1..2048; written by tools/mklntab.py *)\nLnTab == <<\n"+",\n".join(rows)+">>\n====\n")
