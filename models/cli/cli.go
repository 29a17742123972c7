package cli

type Context struct {
	Strings map[string]string
	Bools   map[string]bool
	Ints    map[string]int
}

func (c *Context) String(n string) string       { return c.Strings[n] }
func (c *Context) GlobalString(n string) string { return c.Strings[n] }
func (c *Context) Bool(n string) bool           { return c.Bools[n] }
func (c *Context) Int(n string) int             { return c.Ints[n] }
func (c *Context) GlobalInt(n string) int       { return c.Ints[n] }
func (c *Context) GlobalIsSet(n string) bool    { _, ok := c.Ints[n]; return ok }
func (c *Context) IsSet(n string) bool          { _, ok := c.Strings[n]; return ok }

type Flag interface{}
type StringFlag struct {
	Name, Usage, Value string
}
type BoolFlag struct{ Name, Usage string }
type IntFlag struct {
	Name, Usage string
	Value       int
}
type Command struct {
	Name, Usage string
	Aliases     []string
	Action      interface{}
	Flags       []Flag
	Subcommands []Command
}
type App struct {
	Name, Usage, Version string
	Flags                []Flag
	Commands             []Command
	Before               func(*Context) error
}

func NewApp() *App                   { return &App{} }
func (a *App) Run(args []string) error { panic("cli is not modelled") }
