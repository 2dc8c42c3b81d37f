module github.com/keyfuse/tokucore

go 1.21
