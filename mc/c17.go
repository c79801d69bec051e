package main

func init() { checks["C17"] = checkC17 }

func checkC17(c *Ctx) { splitChecks(c, "nonov", true) }
