package main

import "github.com/patrickbr/gtfstidy/processors"

// procs maps operation names to processors configured like the command line does.
var procs = map[string]func() processors.Processor{
	"toofast": func() processors.Processor { return processors.TooFastTripRemover{} },
	"O":       func() processors.Processor { return processors.OrphanRemover{} },
	"A":       func() processors.Processor { return processors.AgencyDuplicateRemover{} },
	"avg":     func() processors.Processor { return processors.StopParentAverager{MaxDist: 100} },
	"P": func() processors.Processor {
		return processors.StopDuplicateRemover{DistThresholdStop: 5.0, DistThresholdStation: 50}
	},
	"Pf": func() processors.Processor {
		return processors.StopDuplicateRemover{DistThresholdStop: 5.0, DistThresholdStation: 50, Fuzzy: true}
	},
	"E": func() processors.Processor {
		return processors.StopReclusterer{DistThreshold: 75, NameSimiThreshold: 0.55, GridCellSize: 10000}
	},
	"plat":  func() processors.Processor { return processors.PlatformCodeDropper{} },
	"m":     func() processors.Processor { return processors.ShapeRemeasurer{Force: false} },
	"mf":    func() processors.Processor { return processors.ShapeRemeasurer{Force: true} },
	"s":     func() processors.Processor { return processors.ShapeMinimizer{Epsilon: 1.0} },
	"r":     func() processors.Processor { return processors.StopTimeRemeasurer{} },
	"snap":  func() processors.Processor { return processors.ShapeSnapper{MaxDist: 100.0} },
	"S":     func() processors.Processor { return processors.ShapeDuplicateRemover{MaxEqDist: 1.0} },
	"R":     func() processors.Processor { return processors.RouteDuplicateRemover{} },
	"C":     func() processors.Processor { return processors.ServiceDuplicateRemover{} },
	"group": func() processors.Processor { return processors.AdjacentStopTimeGrouper{} },
	"c":     func() processors.Processor { return processors.ServiceMinimizer{} },
	"I":     func() processors.Processor { return processors.TripDuplicateRemover{MaxDayDist: 7} },
	"Ia":    func() processors.Processor { return processors.TripDuplicateRemover{Aggressive: true, MaxDayDist: 7} },
	"If":    func() processors.Processor { return processors.TripDuplicateRemover{Fuzzy: true, MaxDayDist: 7} },
	"Ifa": func() processors.Processor {
		return processors.TripDuplicateRemover{Fuzzy: true, Aggressive: true, MaxDayDist: 7}
	},
	"nonov": func() processors.Processor {
		return processors.ServiceNonOverlapper{DayNames: []string{"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"}, YearWeekName: "WW"}
	},
	"T": func() processors.Processor {
		return processors.FrequencyMinimizer{MinHeadway: 1, MaxHeadway: 3600 * 24}
	},
	"T600":    func() processors.Processor { return processors.FrequencyMinimizer{MinHeadway: 120, MaxHeadway: 600} },
	"nocd":    func() processors.Processor { return processors.ServiceCalDatesRem{} },
	"parents": func() processors.Processor { return processors.StopParentEnforcer{} },
	"i":       func() processors.Processor { return processors.IDMinimizer{Base: 10} },
	"d":       func() processors.Processor { return processors.IDMinimizer{Base: 36} },
}
