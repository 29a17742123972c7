module go.dedis.ch/onet/v3

go 1.14
