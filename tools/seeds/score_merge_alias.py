PROPERTY='C14'
NEEDS='merging into an empty score a score whose record list has spare room, then adding to both'
BREAKS='an empty score that absorbs another shares its records'
EDITS=[('score/score.go', '\ts.predictions = append(s.predictions, t.predictions...)\n}\n\n// Add returns', '\tif len(s.predictions) == 0 {\n\t\ts.predictions = t.predictions\n\t} else {\n\t\ts.predictions = append(s.predictions, t.predictions...)\n\t}\n}\n\n// Add returns')]
DEMO='package main\n\nimport (\n\t"fmt"\n\t"os"\n\t"github.com/RenatoGeh/gospn/score"\n)\n\nfunc fail(a ...interface{}) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n\nfunc main() {\n\tt, s := score.NewScore(), score.NewScore()\n\tfor i := 0; i < 3; i++ {\n\t\tt.Register(0, 0)\n\t}\n\ts.Merge(t)\n\ts.Register(1, 0)\n\tt.Register(0, 0)\n\tif m := s.ConfusionMatrix(2); m[0][1] != 1 {\n\t\tfail(m)\n\t}\n}\n'
