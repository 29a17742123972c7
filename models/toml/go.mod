module github.com/BurntSushi/toml

go 1.14
