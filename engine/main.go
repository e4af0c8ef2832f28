package main

func main() { mainCLI() }
