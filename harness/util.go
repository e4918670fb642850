package main

import "time"

// timeSplit is the point half way to end.
func timeSplit(end time.Time) time.Time {
	return time.Now().Add(time.Until(end) / 2)
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}
