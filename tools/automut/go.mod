module automut

go 1.21
