module github.com/tdewolff/font/zzverif

go 1.25.0
