PROPERTY='C20'
NEEDS='an image of more than 255 by 255 pixels'
BREAKS='codes of rectangles are computed in 32 bits, so far rectangles of large images share codes'
EDITS=[('learn/poon/poon.go', '\t_w, _h := uint64(w+1), uint64(h+1)\n\treturn ((uint64(y1)*_w+uint64(x1))*_w+uint64(x2))*_h + uint64(y2)', '\t_w, _h := uint32(w+1), uint32(h+1)\n\treturn uint64(((uint32(y1)*_w+uint32(x1))*_w+uint32(x2))*_h + uint32(y2))')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/learn/poon"\n\t"github.com/RenatoGeh/gospn/spn"\n\t"github.com/RenatoGeh/gospn/sys"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\nfunc main() {\n\t// The size is taken up by any structure; codes are all that matters here.\n\tsys.Width, sys.Height = 300, 300\n\tfunc() {\n\t\tdefer func() { recover() }()\n\t\tpoon.Structure(spn.Dataset{}, 1, 1, 1000)\n\t}()\n\ta, b, c, d := poon.Decode(poon.Encode(290, 290, 300, 300))\n\tif a != 290 || b != 290 || c != 300 || d != 300 {\n\t\tfail(a, b, c, d)\n\t}\n}\n'
