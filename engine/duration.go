package main

import "time"

func hostDuration(fr *frame, a []value) value {
	d, err := time.ParseDuration(fr.harnessStr(a[0]))
	if err != nil {
		return tuple{int64(0), fr.p.mkError(err.Error())}
	}
	return tuple{int64(d), nilErr()}
}
