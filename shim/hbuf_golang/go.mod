module github.com/wskfjtheqian/hbuf_golang

go 1.21
