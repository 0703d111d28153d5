module vmc

go 1.21

require golang.org/x/sys v0.0.0-20180926160741-c2ed4eda69e7
