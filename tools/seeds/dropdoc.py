PROPERTY = "P13"
NEEDS = "a REST request with one document whose properties are no object among others that are fine"
BREAKS = "the unusable document is silently dropped and the request acknowledged"
EDITS = [("adapters/handlers/documents.go", "	documents := make([]*document.Document, len(documentsRaw.Documents))\n\n	for i, v :=", "	documents := make([]*document.Document, 0, len(documentsRaw.Documents))\n\n	for _, v :="),
         ("adapters/handlers/documents.go", "		documents[i] = d\n	}\n	err := s.doc.AddDocuments", "		documents = append(documents, d)\n	}\n	err := s.doc.AddDocuments")]
PKG = "adapters/handlers"
IMPORTS = ['"testing"', '"github.com/fairDataSociety/FaVe/models"', '"github.com/fairDataSociety/FaVe/restapi/operations"']
DEMO = """
func TestDemo(t *testing.T) {
	e := start(t)
	create(t, e, "c")
	s := &Handler{doc: e.C}
	r := s.FaveAddDocumentsHandler(operations.FaveAddDocumentsParams{Body: &models.AddDocumentsRequest{Name: "c", PropertiesToVectorize: []string{"title"}, Documents: []*models.Document{
		{ID: "a", Properties: map[string]interface{}{"title": "title of a", "vector": []interface{}{1.0, 0.0}}},
		{ID: "b", Properties: "none"},
	}}})
	if _, ok := r.(*operations.FaveAddDocumentsOK); ok {
		t.Fatal("acknowledged")
	}
	want(t, "search", near(t, e, "c", 2, 5, 1, 0), []string{})
}
"""
