module github.com/lestrrat/go-jwx

go 1.23.0
