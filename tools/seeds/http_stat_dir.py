PROPERTY='C30'
NEEDS='a download without override into a directory that exists'
BREAKS='nothing is downloaded although no error is reported'
EDITS=[('io/http.go', '\t_, e := os.Stat(f)\n', '\t_, e := os.Stat(p)\n')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/io"\n\t"net/http"\n\t"net/http/httptest"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\n\nfunc main() {\n\ts := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { fmt.Fprint(w, "hello") }))\n\tdefer s.Close()\n\tos.Mkdir("dir", 0o755)\n\twd, _ := os.Getwd()\n\te := io.DownloadFromURL(s.URL+"/a.txt", wd+"/dir", false)\n\tfor _, f := range []string{"dir/a.txt", io.GetPath(wd + "/dir/a.txt")} {\n\t\tif b, _ := os.ReadFile(f); string(b) == "hello" {\n\t\t\treturn\n\t\t}\n\t}\n\tif e == nil {\n\t\tfail("no error and no file")\n\t}\n\tfmt.Println("download failed:", e)\n}\n'
