module geosim

go 1.25
