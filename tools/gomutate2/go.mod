module gomutate2

go 1.24
