module automut

go 1.24
