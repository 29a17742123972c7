package toml

type MetaData struct{}

func Decode(data string, v interface{}) (MetaData, error) { panic("toml is not modelled") }
