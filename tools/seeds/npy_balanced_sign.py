PROPERTY='C21'
NEEDS='balanced reading of an array of 16-bit signed numbers that holds negative values'
BREAKS='negative values come back as large positive ones'
EDITS=[('io/npy.go', '\t\tcase 5:\n\t\t\tm := make([]int16, y)\n\t\t\terr := r.r.Read(&m)\n\t\t\tif err != nil {\n\t\t\t\treturn nil, nil, err\n\t\t\t}\n\t\t\tif l := m[y-1]; C[l] > 0 {\n\t\t\t\tD[i] = make(map[int]int)\n\t\t\t\tfor j := 0; j < y-1; j++ {\n\t\t\t\t\tD[i][j] = int(m[j])\n', '\t\tcase 5:\n\t\t\tm := make([]int16, y)\n\t\t\terr := r.r.Read(&m)\n\t\t\tif err != nil {\n\t\t\t\treturn nil, nil, err\n\t\t\t}\n\t\t\tif l := m[y-1]; C[l] > 0 {\n\t\t\t\tD[i] = make(map[int]int)\n\t\t\t\tfor j := 0; j < y-1; j++ {\n\t\t\t\t\tD[i][j] = int(uint16(m[j]))\n')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/io"\n\t"encoding/binary"\n\t"strings"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\n\nfunc main() {\n\th := "{\'descr\': \'<i2\', \'fortran_order\': False, \'shape\': (2, 2), }"\n\th += strings.Repeat(" ", (64-(10+len(h)+1)%64)%64) + "\\n"\n\tf, _ := os.Create("a.npy")\n\tf.Write([]byte("\\x93NUMPY\\x01\\x00"))\n\tbinary.Write(f, binary.LittleEndian, uint16(len(h)))\n\tf.Write([]byte(h))\n\tbinary.Write(f, binary.LittleEndian, []int16{-5, 0, 7, 1})\n\tf.Close()\n\tr, e := io.NewNpyReader("a.npy")\n\tif e != nil {\n\t\tfail(e)\n\t}\n\tD, L, e := r.ReadBalanced(2, 2)\n\tif e != nil || L[0] != 0 || L[1] != 1 || D[0][0] != -5 || D[1][0] != 7 {\n\t\tfail(D, L, e)\n\t}\n}\n'
