MODULES = ["threads", "steady", "iofaults", "restart", "inputs", "outputs", "physics", "generators", "multi", "resources", "scripts", "console", "extremes", "editing", "histories"]
