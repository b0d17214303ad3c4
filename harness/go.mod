module verif/harness

go 1.21

require github.com/l1va/goosli v0.0.0

require (
	github.com/fogleman/simplify v0.0.0-20170216171241-d32f302d5046 // indirect
	gopkg.in/yaml.v2 v2.2.2 // indirect
)

replace github.com/l1va/goosli => /repo
