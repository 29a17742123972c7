module go.dedis.ch/kyber/v3

go 1.14
