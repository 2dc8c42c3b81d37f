module gomutate

go 1.24
