module github.com/nsf/termbox-go

go 1.20
