package main

// Titles and rules are in titles.go, generated from tools/props.py.
var checks = []Check{
	{ID: "C01", Run: runC01},
	{ID: "C02", Run: runC02},
	{ID: "C03", Run: runC03},
	{ID: "C04", Run: runC04},
	{ID: "C05", Run: runC05},
	{ID: "C06", Run: runC06},
	{ID: "C07", Run: runC07},
	{ID: "C08", Run: runC08},
	{ID: "C09", Run: runC09},
	{ID: "C10", Run: runC10},
	{ID: "C11", Run: runC11},
	{ID: "C12", Run: runC12},
	{ID: "C13", Run: runC13},
	{ID: "C14", Run: runC14},
	{ID: "C15", Run: runC15},
	{ID: "C16", Run: runC16},
	{ID: "C17", Run: runC17},
	{ID: "C18", Run: runC18},
	{ID: "C19", Run: runC19},
	{ID: "C20", Run: runC20},
	{ID: "C21", Run: runC21},
	{ID: "C22", Run: runC22},
	{ID: "C23", Run: runC23},
	{ID: "C24", Run: runC24},
	{ID: "C25", Run: runC25},
	{ID: "C26", Run: runC26},
	{ID: "C27", Run: runC27},
	{ID: "C28", Run: runC28},
	{ID: "C29", Run: runC29},
	{ID: "C30", Run: runC30},
}

func init() {
	for i := range checks {
		checks[i].Title, checks[i].Rule = titles[checks[i].ID][0], titles[checks[i].ID][1]
	}
}
