@src src/parallel_data/document.rs
@fn Document::new
@props C25
@ret r
@contract
    requires !corpus.xml_parser.html(), corpus.html_parser.html()
    ensures r is Ok == parsed_file(filepath@) is Some, r is Ok ==> (r->Ok_0).path@ == filepath@ && (r->Ok_0).corpus == corpus && (r->Ok_0).dnm is None && Some((r->Ok_0).dom) == parsed_file(filepath@)
