PROPERTY = "P22"
NEEDS = "a setting given as a floating-point number of more than 24 bits"
BREAKS = "the setting is rounded"
EDITS = [("pkg/hnsw/user_config.go", "		asInt64 = int64(typed)\n", "		asInt64 = int64(float32(typed))\n")]
IMPORTS = ['"testing"', 'h "github.com/fairDataSociety/FaVe/pkg/hnsw"']
DEMO = """
func TestDemo(t *testing.T) {
	c, err := h.ParseAndValidateConfig(map[string]interface{}{"flatSearchCutoff": float64(16777217)})
	if err != nil {
		t.Fatal(err)
	}
	if got := c.(h.UserConfig).FlatSearchCutoff; got != 16777217 {
		t.Fatal(got)
	}
}
"""
BARE = "nostack"
