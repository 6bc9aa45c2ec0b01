package harness

func helperMain(string) {}
