module vrt

go 1.24
