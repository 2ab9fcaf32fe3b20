PROPERTY = "P29"
NEEDS = "a pod given to the server and another one in its environment"
BREAKS = "the environment variable has no effect, unlike the others"
EDITS = [("adapters/handlers/environment.go", 'if v := os.Getenv("POD"); v != "" {', 'if v := os.Getenv("POD"); v != "" && config.Pod == "" {')]
IMPORTS = ['"testing"', '"github.com/fairDataSociety/FaVe/adapters/handlers"']
DEMO = """
func TestDemo(t *testing.T) {
	t.Setenv("POD", "b")
	c := &handlers.HandlerConfig{Pod: "a"}
	handlers.FromEnv(c)
	handlers.SetDefaults(c)
	if c.Pod != "b" {
		t.Fatal(c.Pod)
	}
}
"""
BARE = "nostack"
