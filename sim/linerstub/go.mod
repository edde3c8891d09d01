module github.com/peterh/liner

go 1.23

require simrt v0.0.0
