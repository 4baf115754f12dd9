module verif

go 1.26.2

// The real requirements are generated from /repo/go.mod by tools/gomod.sh into .build/go.mod (go build -modfile).
