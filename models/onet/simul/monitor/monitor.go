package monitor

type TimeMeasure struct{ name string }

func NewTimeMeasure(name string) *TimeMeasure { return &TimeMeasure{name} }
func (tm *TimeMeasure) Record()               {}
func (tm *TimeMeasure) Reset()                {}
