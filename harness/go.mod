module vmon

go 1.23
