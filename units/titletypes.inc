@verbatim
// the characters of the literals above
proof fn lemma_lits()
    ensures
        " analysis"@.len() == 9, " analysis"@[0] == ' ', " analysis"@[1] == 'a', " analysis"@[2] == 'n', " analysis"@[3] == 'a', " analysis"@[4] == 'l', " analysis"@[5] == 'y', " analysis"@[6] == 's', " analysis"@[7] == 'i', " analysis"@[8] == 's',
        " axiom"@.len() == 6, " axiom"@[0] == ' ', " axiom"@[1] == 'a', " axiom"@[2] == 'x', " axiom"@[3] == 'i', " axiom"@[4] == 'o', " axiom"@[5] == 'm',
        " conclusion"@.len() == 11, " conclusion"@[0] == ' ', " conclusion"@[1] == 'c', " conclusion"@[2] == 'o', " conclusion"@[3] == 'n', " conclusion"@[4] == 'c', " conclusion"@[5] == 'l', " conclusion"@[6] == 'u', " conclusion"@[7] == 's', " conclusion"@[8] == 'i', " conclusion"@[9] == 'o', " conclusion"@[10] == 'n',
        " condition"@.len() == 10, " condition"@[0] == ' ', " condition"@[1] == 'c', " condition"@[2] == 'o', " condition"@[3] == 'n', " condition"@[4] == 'd', " condition"@[5] == 'i', " condition"@[6] == 't', " condition"@[7] == 'i', " condition"@[8] == 'o', " condition"@[9] == 'n',
        " conjecture"@.len() == 11, " conjecture"@[0] == ' ', " conjecture"@[1] == 'c', " conjecture"@[2] == 'o', " conjecture"@[3] == 'n', " conjecture"@[4] == 'j', " conjecture"@[5] == 'e', " conjecture"@[6] == 'c', " conjecture"@[7] == 't', " conjecture"@[8] == 'u', " conjecture"@[9] == 'r', " conjecture"@[10] == 'e',
        " contribution"@.len() == 13, " contribution"@[0] == ' ', " contribution"@[1] == 'c', " contribution"@[2] == 'o', " contribution"@[3] == 'n', " contribution"@[4] == 't', " contribution"@[5] == 'r', " contribution"@[6] == 'i', " contribution"@[7] == 'b', " contribution"@[8] == 'u', " contribution"@[9] == 't', " contribution"@[10] == 'i', " contribution"@[11] == 'o', " contribution"@[12] == 'n',
        " corollary"@.len() == 10, " corollary"@[0] == ' ', " corollary"@[1] == 'c', " corollary"@[2] == 'o', " corollary"@[3] == 'r', " corollary"@[4] == 'o', " corollary"@[5] == 'l', " corollary"@[6] == 'l', " corollary"@[7] == 'a', " corollary"@[8] == 'r', " corollary"@[9] == 'y',
        " definition"@.len() == 11, " definition"@[0] == ' ', " definition"@[1] == 'd', " definition"@[2] == 'e', " definition"@[3] == 'f', " definition"@[4] == 'i', " definition"@[5] == 'n', " definition"@[6] == 'i', " definition"@[7] == 't', " definition"@[8] == 'i', " definition"@[9] == 'o', " definition"@[10] == 'n',
        " demonstration"@.len() == 14, " demonstration"@[0] == ' ', " demonstration"@[1] == 'd', " demonstration"@[2] == 'e', " demonstration"@[3] == 'm', " demonstration"@[4] == 'o', " demonstration"@[5] == 'n', " demonstration"@[6] == 's', " demonstration"@[7] == 't', " demonstration"@[8] == 'r', " demonstration"@[9] == 'a', " demonstration"@[10] == 't', " demonstration"@[11] == 'i', " demonstration"@[12] == 'o', " demonstration"@[13] == 'n',
        " description"@.len() == 12, " description"@[0] == ' ', " description"@[1] == 'd', " description"@[2] == 'e', " description"@[3] == 's', " description"@[4] == 'c', " description"@[5] == 'r', " description"@[6] == 'i', " description"@[7] == 'p', " description"@[8] == 't', " description"@[9] == 'i', " description"@[10] == 'o', " description"@[11] == 'n',
        " discussion"@.len() == 11, " discussion"@[0] == ' ', " discussion"@[1] == 'd', " discussion"@[2] == 'i', " discussion"@[3] == 's', " discussion"@[4] == 'c', " discussion"@[5] == 'u', " discussion"@[6] == 's', " discussion"@[7] == 's', " discussion"@[8] == 'i', " discussion"@[9] == 'o', " discussion"@[10] == 'n',
        " example"@.len() == 8, " example"@[0] == ' ', " example"@[1] == 'e', " example"@[2] == 'x', " example"@[3] == 'a', " example"@[4] == 'm', " example"@[5] == 'p', " example"@[6] == 'l', " example"@[7] == 'e',
        " experiment"@.len() == 11, " experiment"@[0] == ' ', " experiment"@[1] == 'e', " experiment"@[2] == 'x', " experiment"@[3] == 'p', " experiment"@[4] == 'e', " experiment"@[5] == 'r', " experiment"@[6] == 'i', " experiment"@[7] == 'm', " experiment"@[8] == 'e', " experiment"@[9] == 'n', " experiment"@[10] == 't',
        " hypothesis"@.len() == 11, " hypothesis"@[0] == ' ', " hypothesis"@[1] == 'h', " hypothesis"@[2] == 'y', " hypothesis"@[3] == 'p', " hypothesis"@[4] == 'o', " hypothesis"@[5] == 't', " hypothesis"@[6] == 'h', " hypothesis"@[7] == 'e', " hypothesis"@[8] == 's', " hypothesis"@[9] == 'i', " hypothesis"@[10] == 's',
        " lemma"@.len() == 6, " lemma"@[0] == ' ', " lemma"@[1] == 'l', " lemma"@[2] == 'e', " lemma"@[3] == 'm', " lemma"@[4] == 'm', " lemma"@[5] == 'a',
        " method"@.len() == 7, " method"@[0] == ' ', " method"@[1] == 'm', " method"@[2] == 'e', " method"@[3] == 't', " method"@[4] == 'h', " method"@[5] == 'o', " method"@[6] == 'd',
        " model"@.len() == 6, " model"@[0] == ' ', " model"@[1] == 'm', " model"@[2] == 'o', " model"@[3] == 'd', " model"@[4] == 'e', " model"@[5] == 'l',
        " motivation"@.len() == 11, " motivation"@[0] == ' ', " motivation"@[1] == 'm', " motivation"@[2] == 'o', " motivation"@[3] == 't', " motivation"@[4] == 'i', " motivation"@[5] == 'v', " motivation"@[6] == 'a', " motivation"@[7] == 't', " motivation"@[8] == 'i', " motivation"@[9] == 'o', " motivation"@[10] == 'n',
        " notation"@.len() == 9, " notation"@[0] == ' ', " notation"@[1] == 'n', " notation"@[2] == 'o', " notation"@[3] == 't', " notation"@[4] == 'a', " notation"@[5] == 't', " notation"@[6] == 'i', " notation"@[7] == 'o', " notation"@[8] == 'n',
        " preliminaries"@.len() == 14, " preliminaries"@[0] == ' ', " preliminaries"@[1] == 'p', " preliminaries"@[2] == 'r', " preliminaries"@[3] == 'e', " preliminaries"@[4] == 'l', " preliminaries"@[5] == 'i', " preliminaries"@[6] == 'm', " preliminaries"@[7] == 'i', " preliminaries"@[8] == 'n', " preliminaries"@[9] == 'a', " preliminaries"@[10] == 'r', " preliminaries"@[11] == 'i', " preliminaries"@[12] == 'e', " preliminaries"@[13] == 's',
        " problem"@.len() == 8, " problem"@[0] == ' ', " problem"@[1] == 'p', " problem"@[2] == 'r', " problem"@[3] == 'o', " problem"@[4] == 'b', " problem"@[5] == 'l', " problem"@[6] == 'e', " problem"@[7] == 'm',
        " proof"@.len() == 6, " proof"@[0] == ' ', " proof"@[1] == 'p', " proof"@[2] == 'r', " proof"@[3] == 'o', " proof"@[4] == 'o', " proof"@[5] == 'f',
        " properties"@.len() == 11, " properties"@[0] == ' ', " properties"@[1] == 'p', " properties"@[2] == 'r', " properties"@[3] == 'o', " properties"@[4] == 'p', " properties"@[5] == 'e', " properties"@[6] == 'r', " properties"@[7] == 't', " properties"@[8] == 'i', " properties"@[9] == 'e', " properties"@[10] == 's',
        " property"@.len() == 9, " property"@[0] == ' ', " property"@[1] == 'p', " property"@[2] == 'r', " property"@[3] == 'o', " property"@[4] == 'p', " property"@[5] == 'e', " property"@[6] == 'r', " property"@[7] == 't', " property"@[8] == 'y',
        " proposition"@.len() == 12, " proposition"@[0] == ' ', " proposition"@[1] == 'p', " proposition"@[2] == 'r', " proposition"@[3] == 'o', " proposition"@[4] == 'p', " proposition"@[5] == 'o', " proposition"@[6] == 's', " proposition"@[7] == 'i', " proposition"@[8] == 't', " proposition"@[9] == 'i', " proposition"@[10] == 'o', " proposition"@[11] == 'n',
        " question"@.len() == 9, " question"@[0] == ' ', " question"@[1] == 'q', " question"@[2] == 'u', " question"@[3] == 'e', " question"@[4] == 's', " question"@[5] == 't', " question"@[6] == 'i', " question"@[7] == 'o', " question"@[8] == 'n',
        " remark"@.len() == 7, " remark"@[0] == ' ', " remark"@[1] == 'r', " remark"@[2] == 'e', " remark"@[3] == 'm', " remark"@[4] == 'a', " remark"@[5] == 'r', " remark"@[6] == 'k',
        " result"@.len() == 7, " result"@[0] == ' ', " result"@[1] == 'r', " result"@[2] == 'e', " result"@[3] == 's', " result"@[4] == 'u', " result"@[5] == 'l', " result"@[6] == 't',
        " simulation"@.len() == 11, " simulation"@[0] == ' ', " simulation"@[1] == 's', " simulation"@[2] == 'i', " simulation"@[3] == 'm', " simulation"@[4] == 'u', " simulation"@[5] == 'l', " simulation"@[6] == 'a', " simulation"@[7] == 't', " simulation"@[8] == 'i', " simulation"@[9] == 'o', " simulation"@[10] == 'n',
        " summary"@.len() == 8, " summary"@[0] == ' ', " summary"@[1] == 's', " summary"@[2] == 'u', " summary"@[3] == 'm', " summary"@[4] == 'm', " summary"@[5] == 'a', " summary"@[6] == 'r', " summary"@[7] == 'y',
        " theorem"@.len() == 8, " theorem"@[0] == ' ', " theorem"@[1] == 't', " theorem"@[2] == 'h', " theorem"@[3] == 'e', " theorem"@[4] == 'o', " theorem"@[5] == 'r', " theorem"@[6] == 'e', " theorem"@[7] == 'm',
        "abstract"@.len() == 8, "abstract"@[0] == 'a', "abstract"@[1] == 'b', "abstract"@[2] == 's', "abstract"@[3] == 't', "abstract"@[4] == 'r', "abstract"@[5] == 'a', "abstract"@[6] == 'c', "abstract"@[7] == 't',
        "acknowledg"@.len() == 10, "acknowledg"@[0] == 'a', "acknowledg"@[1] == 'c', "acknowledg"@[2] == 'k', "acknowledg"@[3] == 'n', "acknowledg"@[4] == 'o', "acknowledg"@[5] == 'w', "acknowledg"@[6] == 'l', "acknowledg"@[7] == 'e', "acknowledg"@[8] == 'd', "acknowledg"@[9] == 'g',
        "acknowledgement"@.len() == 15, "acknowledgement"@[0] == 'a', "acknowledgement"@[1] == 'c', "acknowledgement"@[2] == 'k', "acknowledgement"@[3] == 'n', "acknowledgement"@[4] == 'o', "acknowledgement"@[5] == 'w', "acknowledgement"@[6] == 'l', "acknowledgement"@[7] == 'e', "acknowledgement"@[8] == 'd', "acknowledgement"@[9] == 'g', "acknowledgement"@[10] == 'e', "acknowledgement"@[11] == 'm', "acknowledgement"@[12] == 'e', "acknowledgement"@[13] == 'n', "acknowledgement"@[14] == 't',
        "aknowledg"@.len() == 9, "aknowledg"@[0] == 'a', "aknowledg"@[1] == 'k', "aknowledg"@[2] == 'n', "aknowledg"@[3] == 'o', "aknowledg"@[4] == 'w', "aknowledg"@[5] == 'l', "aknowledg"@[6] == 'e', "aknowledg"@[7] == 'd', "aknowledg"@[8] == 'g',
        "analaysis"@.len() == 9, "analaysis"@[0] == 'a', "analaysis"@[1] == 'n', "analaysis"@[2] == 'a', "analaysis"@[3] == 'l', "analaysis"@[4] == 'a', "analaysis"@[5] == 'y', "analaysis"@[6] == 's', "analaysis"@[7] == 'i', "analaysis"@[8] == 's',
        "analyses"@.len() == 8, "analyses"@[0] == 'a', "analyses"@[1] == 'n', "analyses"@[2] == 'a', "analyses"@[3] == 'l', "analyses"@[4] == 'y', "analyses"@[5] == 's', "analyses"@[6] == 'e', "analyses"@[7] == 's',
        "analysis"@.len() == 8, "analysis"@[0] == 'a', "analysis"@[1] == 'n', "analysis"@[2] == 'a', "analysis"@[3] == 'l', "analysis"@[4] == 'y', "analysis"@[5] == 's', "analysis"@[6] == 'i', "analysis"@[7] == 's',
        "analysis "@.len() == 9, "analysis "@[0] == 'a', "analysis "@[1] == 'n', "analysis "@[2] == 'a', "analysis "@[3] == 'l', "analysis "@[4] == 'y', "analysis "@[5] == 's', "analysis "@[6] == 'i', "analysis "@[7] == 's', "analysis "@[8] == ' ',
        "appendi"@.len() == 7, "appendi"@[0] == 'a', "appendi"@[1] == 'p', "appendi"@[2] == 'p', "appendi"@[3] == 'e', "appendi"@[4] == 'n', "appendi"@[5] == 'd', "appendi"@[6] == 'i',
        "appendix"@.len() == 8, "appendix"@[0] == 'a', "appendix"@[1] == 'p', "appendix"@[2] == 'p', "appendix"@[3] == 'e', "appendix"@[4] == 'n', "appendix"@[5] == 'd', "appendix"@[6] == 'i', "appendix"@[7] == 'x',
        "application"@.len() == 11, "application"@[0] == 'a', "application"@[1] == 'p', "application"@[2] == 'p', "application"@[3] == 'l', "application"@[4] == 'i', "application"@[5] == 'c', "application"@[6] == 'a', "application"@[7] == 't', "application"@[8] == 'i', "application"@[9] == 'o', "application"@[10] == 'n',
        "assumption"@.len() == 10, "assumption"@[0] == 'a', "assumption"@[1] == 's', "assumption"@[2] == 's', "assumption"@[3] == 'u', "assumption"@[4] == 'm', "assumption"@[5] == 'p', "assumption"@[6] == 't', "assumption"@[7] == 'i', "assumption"@[8] == 'o', "assumption"@[9] == 'n',
        "axiom"@.len() == 5, "axiom"@[0] == 'a', "axiom"@[1] == 'x', "axiom"@[2] == 'i', "axiom"@[3] == 'o', "axiom"@[4] == 'm',
        "background"@.len() == 10, "background"@[0] == 'b', "background"@[1] == 'a', "background"@[2] == 'c', "background"@[3] == 'k', "background"@[4] == 'g', "background"@[5] == 'r', "background"@[6] == 'o', "background"@[7] == 'u', "background"@[8] == 'n', "background"@[9] == 'd',
        "background "@.len() == 11, "background "@[0] == 'b', "background "@[1] == 'a', "background "@[2] == 'c', "background "@[3] == 'k', "background "@[4] == 'g', "background "@[5] == 'r', "background "@[6] == 'o', "background "@[7] == 'u', "background "@[8] == 'n', "background "@[9] == 'd', "background "@[10] == ' ',
        "bibliography"@.len() == 12, "bibliography"@[0] == 'b', "bibliography"@[1] == 'i', "bibliography"@[2] == 'b', "bibliography"@[3] == 'l', "bibliography"@[4] == 'i', "bibliography"@[5] == 'o', "bibliography"@[6] == 'g', "bibliography"@[7] == 'r', "bibliography"@[8] == 'a', "bibliography"@[9] == 'p', "bibliography"@[10] == 'h', "bibliography"@[11] == 'y',
        "caption"@.len() == 7, "caption"@[0] == 'c', "caption"@[1] == 'a', "caption"@[2] == 'p', "caption"@[3] == 't', "caption"@[4] == 'i', "caption"@[5] == 'o', "caption"@[6] == 'n',
        "case"@.len() == 4, "case"@[0] == 'c', "case"@[1] == 'a', "case"@[2] == 's', "case"@[3] == 'e',
        "claim"@.len() == 5, "claim"@[0] == 'c', "claim"@[1] == 'l', "claim"@[2] == 'a', "claim"@[3] == 'i', "claim"@[4] == 'm',
        "concluding remarks"@.len() == 18, "concluding remarks"@[0] == 'c', "concluding remarks"@[1] == 'o', "concluding remarks"@[2] == 'n', "concluding remarks"@[3] == 'c', "concluding remarks"@[4] == 'l', "concluding remarks"@[5] == 'u', "concluding remarks"@[6] == 'd', "concluding remarks"@[7] == 'i', "concluding remarks"@[8] == 'n', "concluding remarks"@[9] == 'g', "concluding remarks"@[10] == ' ', "concluding remarks"@[11] == 'r', "concluding remarks"@[12] == 'e', "concluding remarks"@[13] == 'm', "concluding remarks"@[14] == 'a', "concluding remarks"@[15] == 'r', "concluding remarks"@[16] == 'k', "concluding remarks"@[17] == 's',
        "conclusion"@.len() == 10, "conclusion"@[0] == 'c', "conclusion"@[1] == 'o', "conclusion"@[2] == 'n', "conclusion"@[3] == 'c', "conclusion"@[4] == 'l', "conclusion"@[5] == 'u', "conclusion"@[6] == 's', "conclusion"@[7] == 'i', "conclusion"@[8] == 'o', "conclusion"@[9] == 'n',
        "condition"@.len() == 9, "condition"@[0] == 'c', "condition"@[1] == 'o', "condition"@[2] == 'n', "condition"@[3] == 'd', "condition"@[4] == 'i', "condition"@[5] == 't', "condition"@[6] == 'i', "condition"@[7] == 'o', "condition"@[8] == 'n',
        "condition "@.len() == 10, "condition "@[0] == 'c', "condition "@[1] == 'o', "condition "@[2] == 'n', "condition "@[3] == 'd', "condition "@[4] == 'i', "condition "@[5] == 't', "condition "@[6] == 'i', "condition "@[7] == 'o', "condition "@[8] == 'n', "condition "@[9] == ' ',
        "conjecture"@.len() == 10, "conjecture"@[0] == 'c', "conjecture"@[1] == 'o', "conjecture"@[2] == 'n', "conjecture"@[3] == 'j', "conjecture"@[4] == 'e', "conjecture"@[5] == 'c', "conjecture"@[6] == 't', "conjecture"@[7] == 'u', "conjecture"@[8] == 'r', "conjecture"@[9] == 'e',
        "contribution"@.len() == 12, "contribution"@[0] == 'c', "contribution"@[1] == 'o', "contribution"@[2] == 'n', "contribution"@[3] == 't', "contribution"@[4] == 'r', "contribution"@[5] == 'i', "contribution"@[6] == 'b', "contribution"@[7] == 'u', "contribution"@[8] == 't', "contribution"@[9] == 'i', "contribution"@[10] == 'o', "contribution"@[11] == 'n',
        "contribution "@.len() == 13, "contribution "@[0] == 'c', "contribution "@[1] == 'o', "contribution "@[2] == 'n', "contribution "@[3] == 't', "contribution "@[4] == 'r', "contribution "@[5] == 'i', "contribution "@[6] == 'b', "contribution "@[7] == 'u', "contribution "@[8] == 't', "contribution "@[9] == 'i', "contribution "@[10] == 'o', "contribution "@[11] == 'n', "contribution "@[12] == ' ',
        "corollaire"@.len() == 10, "corollaire"@[0] == 'c', "corollaire"@[1] == 'o', "corollaire"@[2] == 'r', "corollaire"@[3] == 'o', "corollaire"@[4] == 'l', "corollaire"@[5] == 'l', "corollaire"@[6] == 'a', "corollaire"@[7] == 'i', "corollaire"@[8] == 'r', "corollaire"@[9] == 'e',
        "corollary"@.len() == 9, "corollary"@[0] == 'c', "corollary"@[1] == 'o', "corollary"@[2] == 'r', "corollary"@[3] == 'o', "corollary"@[4] == 'l', "corollary"@[5] == 'l', "corollary"@[6] == 'a', "corollary"@[7] == 'r', "corollary"@[8] == 'y',
        "data"@.len() == 4, "data"@[0] == 'd', "data"@[1] == 'a', "data"@[2] == 't', "data"@[3] == 'a',
        "dataset"@.len() == 7, "dataset"@[0] == 'd', "dataset"@[1] == 'a', "dataset"@[2] == 't', "dataset"@[3] == 'a', "dataset"@[4] == 's', "dataset"@[5] == 'e', "dataset"@[6] == 't',
        "definition"@.len() == 10, "definition"@[0] == 'd', "definition"@[1] == 'e', "definition"@[2] == 'f', "definition"@[3] == 'i', "definition"@[4] == 'n', "definition"@[5] == 'i', "definition"@[6] == 't', "definition"@[7] == 'i', "definition"@[8] == 'o', "definition"@[9] == 'n',
        "demonstration"@.len() == 13, "demonstration"@[0] == 'd', "demonstration"@[1] == 'e', "demonstration"@[2] == 'm', "demonstration"@[3] == 'o', "demonstration"@[4] == 'n', "demonstration"@[5] == 's', "demonstration"@[6] == 't', "demonstration"@[7] == 'r', "demonstration"@[8] == 'a', "demonstration"@[9] == 't', "demonstration"@[10] == 'i', "demonstration"@[11] == 'o', "demonstration"@[12] == 'n',
        "demonstration "@.len() == 14, "demonstration "@[0] == 'd', "demonstration "@[1] == 'e', "demonstration "@[2] == 'm', "demonstration "@[3] == 'o', "demonstration "@[4] == 'n', "demonstration "@[5] == 's', "demonstration "@[6] == 't', "demonstration "@[7] == 'r', "demonstration "@[8] == 'a', "demonstration "@[9] == 't', "demonstration "@[10] == 'i', "demonstration "@[11] == 'o', "demonstration "@[12] == 'n', "demonstration "@[13] == ' ',
        "description"@.len() == 11, "description"@[0] == 'd', "description"@[1] == 'e', "description"@[2] == 's', "description"@[3] == 'c', "description"@[4] == 'r', "description"@[5] == 'i', "description"@[6] == 'p', "description"@[7] == 't', "description"@[8] == 'i', "description"@[9] == 'o', "description"@[10] == 'n',
        "discussion"@.len() == 10, "discussion"@[0] == 'd', "discussion"@[1] == 'i', "discussion"@[2] == 's', "discussion"@[3] == 'c', "discussion"@[4] == 'u', "discussion"@[5] == 's', "discussion"@[6] == 's', "discussion"@[7] == 'i', "discussion"@[8] == 'o', "discussion"@[9] == 'n',
        "dokazatelstvo"@.len() == 13, "dokazatelstvo"@[0] == 'd', "dokazatelstvo"@[1] == 'o', "dokazatelstvo"@[2] == 'k', "dokazatelstvo"@[3] == 'a', "dokazatelstvo"@[4] == 'z', "dokazatelstvo"@[5] == 'a', "dokazatelstvo"@[6] == 't', "dokazatelstvo"@[7] == 'e', "dokazatelstvo"@[8] == 'l', "dokazatelstvo"@[9] == 's', "dokazatelstvo"@[10] == 't', "dokazatelstvo"@[11] == 'v', "dokazatelstvo"@[12] == 'o',
        "example"@.len() == 7, "example"@[0] == 'e', "example"@[1] == 'x', "example"@[2] == 'a', "example"@[3] == 'm', "example"@[4] == 'p', "example"@[5] == 'l', "example"@[6] == 'e',
        "exemple"@.len() == 7, "exemple"@[0] == 'e', "exemple"@[1] == 'x', "exemple"@[2] == 'e', "exemple"@[3] == 'm', "exemple"@[4] == 'p', "exemple"@[5] == 'l', "exemple"@[6] == 'e',
        "exercise"@.len() == 8, "exercise"@[0] == 'e', "exercise"@[1] == 'x', "exercise"@[2] == 'e', "exercise"@[3] == 'r', "exercise"@[4] == 'c', "exercise"@[5] == 'i', "exercise"@[6] == 's', "exercise"@[7] == 'e',
        "exercise "@.len() == 9, "exercise "@[0] == 'e', "exercise "@[1] == 'x', "exercise "@[2] == 'e', "exercise "@[3] == 'r', "exercise "@[4] == 'c', "exercise "@[5] == 'i', "exercise "@[6] == 's', "exercise "@[7] == 'e', "exercise "@[8] == ' ',
        "experiment"@.len() == 10, "experiment"@[0] == 'e', "experiment"@[1] == 'x', "experiment"@[2] == 'p', "experiment"@[3] == 'e', "experiment"@[4] == 'r', "experiment"@[5] == 'i', "experiment"@[6] == 'm', "experiment"@[7] == 'e', "experiment"@[8] == 'n', "experiment"@[9] == 't',
        "fact"@.len() == 4, "fact"@[0] == 'f', "fact"@[1] == 'a', "fact"@[2] == 'c', "fact"@[3] == 't',
        "fact "@.len() == 5, "fact "@[0] == 'f', "fact "@[1] == 'a', "fact "@[2] == 'c', "fact "@[3] == 't', "fact "@[4] == ' ',
        "future"@.len() == 6, "future"@[0] == 'f', "future"@[1] == 'u', "future"@[2] == 't', "future"@[3] == 'u', "future"@[4] == 'r', "future"@[5] == 'e',
        "future work"@.len() == 11, "future work"@[0] == 'f', "future work"@[1] == 'u', "future work"@[2] == 't', "future work"@[3] == 'u', "future work"@[4] == 'r', "future work"@[5] == 'e', "future work"@[6] == ' ', "future work"@[7] == 'w', "future work"@[8] == 'o', "future work"@[9] == 'r', "future work"@[10] == 'k',
        "hypotheses"@.len() == 10, "hypotheses"@[0] == 'h', "hypotheses"@[1] == 'y', "hypotheses"@[2] == 'p', "hypotheses"@[3] == 'o', "hypotheses"@[4] == 't', "hypotheses"@[5] == 'h', "hypotheses"@[6] == 'e', "hypotheses"@[7] == 's', "hypotheses"@[8] == 'e', "hypotheses"@[9] == 's',
        "hypothesis"@.len() == 10, "hypothesis"@[0] == 'h', "hypothesis"@[1] == 'y', "hypothesis"@[2] == 'p', "hypothesis"@[3] == 'o', "hypothesis"@[4] == 't', "hypothesis"@[5] == 'h', "hypothesis"@[6] == 'e', "hypothesis"@[7] == 's', "hypothesis"@[8] == 'i', "hypothesis"@[9] == 's',
        "implementation"@.len() == 14, "implementation"@[0] == 'i', "implementation"@[1] == 'm', "implementation"@[2] == 'p', "implementation"@[3] == 'l', "implementation"@[4] == 'e', "implementation"@[5] == 'm', "implementation"@[6] == 'e', "implementation"@[7] == 'n', "implementation"@[8] == 't', "implementation"@[9] == 'a', "implementation"@[10] == 't', "implementation"@[11] == 'i', "implementation"@[12] == 'o', "implementation"@[13] == 'n',
        "implementation details"@.len() == 22, "implementation details"@[0] == 'i', "implementation details"@[1] == 'm', "implementation details"@[2] == 'p', "implementation details"@[3] == 'l', "implementation details"@[4] == 'e', "implementation details"@[5] == 'm', "implementation details"@[6] == 'e', "implementation details"@[7] == 'n', "implementation details"@[8] == 't', "implementation details"@[9] == 'a', "implementation details"@[10] == 't', "implementation details"@[11] == 'i', "implementation details"@[12] == 'o', "implementation details"@[13] == 'n', "implementation details"@[14] == ' ', "implementation details"@[15] == 'd', "implementation details"@[16] == 'e', "implementation details"@[17] == 't', "implementation details"@[18] == 'a', "implementation details"@[19] == 'i', "implementation details"@[20] == 'l', "implementation details"@[21] == 's',
        "introduction"@.len() == 12, "introduction"@[0] == 'i', "introduction"@[1] == 'n', "introduction"@[2] == 't', "introduction"@[3] == 'r', "introduction"@[4] == 'o', "introduction"@[5] == 'd', "introduction"@[6] == 'u', "introduction"@[7] == 'c', "introduction"@[8] == 't', "introduction"@[9] == 'i', "introduction"@[10] == 'o', "introduction"@[11] == 'n',
        "key word"@.len() == 8, "key word"@[0] == 'k', "key word"@[1] == 'e', "key word"@[2] == 'y', "key word"@[3] == ' ', "key word"@[4] == 'w', "key word"@[5] == 'o', "key word"@[6] == 'r', "key word"@[7] == 'd',
        "keyword"@.len() == 7, "keyword"@[0] == 'k', "keyword"@[1] == 'e', "keyword"@[2] == 'y', "keyword"@[3] == 'w', "keyword"@[4] == 'o', "keyword"@[5] == 'r', "keyword"@[6] == 'd',
        "keywords"@.len() == 8, "keywords"@[0] == 'k', "keywords"@[1] == 'e', "keywords"@[2] == 'y', "keywords"@[3] == 'w', "keywords"@[4] == 'o', "keywords"@[5] == 'r', "keywords"@[6] == 'd', "keywords"@[7] == 's',
        "lemma"@.len() == 5, "lemma"@[0] == 'l', "lemma"@[1] == 'e', "lemma"@[2] == 'm', "lemma"@[3] == 'm', "lemma"@[4] == 'a',
        "lemme"@.len() == 5, "lemme"@[0] == 'l', "lemme"@[1] == 'e', "lemme"@[2] == 'm', "lemme"@[3] == 'm', "lemme"@[4] == 'e',
        "literature review"@.len() == 17, "literature review"@[0] == 'l', "literature review"@[1] == 'i', "literature review"@[2] == 't', "literature review"@[3] == 'e', "literature review"@[4] == 'r', "literature review"@[5] == 'a', "literature review"@[6] == 't', "literature review"@[7] == 'u', "literature review"@[8] == 'r', "literature review"@[9] == 'e', "literature review"@[10] == ' ', "literature review"@[11] == 'r', "literature review"@[12] == 'e', "literature review"@[13] == 'v', "literature review"@[14] == 'i', "literature review"@[15] == 'e', "literature review"@[16] == 'w',
        "mathematics subject classification"@.len() == 34, "mathematics subject classification"@[0] == 'm', "mathematics subject classification"@[1] == 'a', "mathematics subject classification"@[2] == 't', "mathematics subject classification"@[3] == 'h', "mathematics subject classification"@[4] == 'e', "mathematics subject classification"@[5] == 'm', "mathematics subject classification"@[6] == 'a', "mathematics subject classification"@[7] == 't', "mathematics subject classification"@[8] == 'i', "mathematics subject classification"@[9] == 'c', "mathematics subject classification"@[10] == 's', "mathematics subject classification"@[11] == ' ', "mathematics subject classification"@[12] == 's', "mathematics subject classification"@[13] == 'u', "mathematics subject classification"@[14] == 'b', "mathematics subject classification"@[15] == 'j', "mathematics subject classification"@[16] == 'e', "mathematics subject classification"@[17] == 'c', "mathematics subject classification"@[18] == 't', "mathematics subject classification"@[19] == ' ', "mathematics subject classification"@[20] == 'c', "mathematics subject classification"@[21] == 'l', "mathematics subject classification"@[22] == 'a', "mathematics subject classification"@[23] == 's', "mathematics subject classification"@[24] == 's', "mathematics subject classification"@[25] == 'i', "mathematics subject classification"@[26] == 'f', "mathematics subject classification"@[27] == 'i', "mathematics subject classification"@[28] == 'c', "mathematics subject classification"@[29] == 'a', "mathematics subject classification"@[30] == 't', "mathematics subject classification"@[31] == 'i', "mathematics subject classification"@[32] == 'o', "mathematics subject classification"@[33] == 'n',
        "method"@.len() == 6, "method"@[0] == 'm', "method"@[1] == 'e', "method"@[2] == 't', "method"@[3] == 'h', "method"@[4] == 'o', "method"@[5] == 'd',
        "methods"@.len() == 7, "methods"@[0] == 'm', "methods"@[1] == 'e', "methods"@[2] == 't', "methods"@[3] == 'h', "methods"@[4] == 'o', "methods"@[5] == 'd', "methods"@[6] == 's',
        "model"@.len() == 5, "model"@[0] == 'm', "model"@[1] == 'o', "model"@[2] == 'd', "model"@[3] == 'e', "model"@[4] == 'l',
        "motivation"@.len() == 10, "motivation"@[0] == 'm', "motivation"@[1] == 'o', "motivation"@[2] == 't', "motivation"@[3] == 'i', "motivation"@[4] == 'v', "motivation"@[5] == 'a', "motivation"@[6] == 't', "motivation"@[7] == 'i', "motivation"@[8] == 'o', "motivation"@[9] == 'n',
        "motivation "@.len() == 11, "motivation "@[0] == 'm', "motivation "@[1] == 'o', "motivation "@[2] == 't', "motivation "@[3] == 'i', "motivation "@[4] == 'v', "motivation "@[5] == 'a', "motivation "@[6] == 't', "motivation "@[7] == 'i', "motivation "@[8] == 'o', "motivation "@[9] == 'n', "motivation "@[10] == ' ',
        "msc"@.len() == 3, "msc"@[0] == 'm', "msc"@[1] == 's', "msc"@[2] == 'c',
        "notation"@.len() == 8, "notation"@[0] == 'n', "notation"@[1] == 'o', "notation"@[2] == 't', "notation"@[3] == 'a', "notation"@[4] == 't', "notation"@[5] == 'i', "notation"@[6] == 'o', "notation"@[7] == 'n',
        "observation"@.len() == 11, "observation"@[0] == 'o', "observation"@[1] == 'b', "observation"@[2] == 's', "observation"@[3] == 'e', "observation"@[4] == 'r', "observation"@[5] == 'v', "observation"@[6] == 'a', "observation"@[7] == 't', "observation"@[8] == 'i', "observation"@[9] == 'o', "observation"@[10] == 'n',
        "other"@.len() == 5, "other"@[0] == 'o', "other"@[1] == 't', "other"@[2] == 'h', "other"@[3] == 'e', "other"@[4] == 'r',
        "preliminaries"@.len() == 13, "preliminaries"@[0] == 'p', "preliminaries"@[1] == 'r', "preliminaries"@[2] == 'e', "preliminaries"@[3] == 'l', "preliminaries"@[4] == 'i', "preliminaries"@[5] == 'm', "preliminaries"@[6] == 'i', "preliminaries"@[7] == 'n', "preliminaries"@[8] == 'a', "preliminaries"@[9] == 'r', "preliminaries"@[10] == 'i', "preliminaries"@[11] == 'e', "preliminaries"@[12] == 's',
        "preliminaries "@.len() == 14, "preliminaries "@[0] == 'p', "preliminaries "@[1] == 'r', "preliminaries "@[2] == 'e', "preliminaries "@[3] == 'l', "preliminaries "@[4] == 'i', "preliminaries "@[5] == 'm', "preliminaries "@[6] == 'i', "preliminaries "@[7] == 'n', "preliminaries "@[8] == 'a', "preliminaries "@[9] == 'r', "preliminaries "@[10] == 'i', "preliminaries "@[11] == 'e', "preliminaries "@[12] == 's', "preliminaries "@[13] == ' ',
        "preliminary"@.len() == 11, "preliminary"@[0] == 'p', "preliminary"@[1] == 'r', "preliminary"@[2] == 'e', "preliminary"@[3] == 'l', "preliminary"@[4] == 'i', "preliminary"@[5] == 'm', "preliminary"@[6] == 'i', "preliminary"@[7] == 'n', "preliminary"@[8] == 'a', "preliminary"@[9] == 'r', "preliminary"@[10] == 'y',
        "previous work"@.len() == 13, "previous work"@[0] == 'p', "previous work"@[1] == 'r', "previous work"@[2] == 'e', "previous work"@[3] == 'v', "previous work"@[4] == 'i', "previous work"@[5] == 'o', "previous work"@[6] == 'u', "previous work"@[7] == 's', "previous work"@[8] == ' ', "previous work"@[9] == 'w', "previous work"@[10] == 'o', "previous work"@[11] == 'r', "previous work"@[12] == 'k',
        "prior work"@.len() == 10, "prior work"@[0] == 'p', "prior work"@[1] == 'r', "prior work"@[2] == 'i', "prior work"@[3] == 'o', "prior work"@[4] == 'r', "prior work"@[5] == ' ', "prior work"@[6] == 'w', "prior work"@[7] == 'o', "prior work"@[8] == 'r', "prior work"@[9] == 'k',
        "problem"@.len() == 7, "problem"@[0] == 'p', "problem"@[1] == 'r', "problem"@[2] == 'o', "problem"@[3] == 'b', "problem"@[4] == 'l', "problem"@[5] == 'e', "problem"@[6] == 'm',
        "problem "@.len() == 8, "problem "@[0] == 'p', "problem "@[1] == 'r', "problem "@[2] == 'o', "problem "@[3] == 'b', "problem "@[4] == 'l', "problem "@[5] == 'e', "problem "@[6] == 'm', "problem "@[7] == ' ',
        "proof"@.len() == 5, "proof"@[0] == 'p', "proof"@[1] == 'r', "proof"@[2] == 'o', "proof"@[3] == 'o', "proof"@[4] == 'f',
        "properties"@.len() == 10, "properties"@[0] == 'p', "properties"@[1] == 'r', "properties"@[2] == 'o', "properties"@[3] == 'p', "properties"@[4] == 'e', "properties"@[5] == 'r', "properties"@[6] == 't', "properties"@[7] == 'i', "properties"@[8] == 'e', "properties"@[9] == 's',
        "property"@.len() == 8, "property"@[0] == 'p', "property"@[1] == 'r', "property"@[2] == 'o', "property"@[3] == 'p', "property"@[4] == 'e', "property"@[5] == 'r', "property"@[6] == 't', "property"@[7] == 'y',
        "property "@.len() == 9, "property "@[0] == 'p', "property "@[1] == 'r', "property "@[2] == 'o', "property "@[3] == 'p', "property "@[4] == 'e', "property "@[5] == 'r', "property "@[6] == 't', "property "@[7] == 'y', "property "@[8] == ' ',
        "proposition"@.len() == 11, "proposition"@[0] == 'p', "proposition"@[1] == 'r', "proposition"@[2] == 'o', "proposition"@[3] == 'p', "proposition"@[4] == 'o', "proposition"@[5] == 's', "proposition"@[6] == 'i', "proposition"@[7] == 't', "proposition"@[8] == 'i', "proposition"@[9] == 'o', "proposition"@[10] == 'n',
        "question"@.len() == 8, "question"@[0] == 'q', "question"@[1] == 'u', "question"@[2] == 'e', "question"@[3] == 's', "question"@[4] == 't', "question"@[5] == 'i', "question"@[6] == 'o', "question"@[7] == 'n',
        "question "@.len() == 9, "question "@[0] == 'q', "question "@[1] == 'u', "question "@[2] == 'e', "question "@[3] == 's', "question "@[4] == 't', "question "@[5] == 'i', "question "@[6] == 'o', "question "@[7] == 'n', "question "@[8] == ' ',
        "references"@.len() == 10, "references"@[0] == 'r', "references"@[1] == 'e', "references"@[2] == 'f', "references"@[3] == 'e', "references"@[4] == 'r', "references"@[5] == 'e', "references"@[6] == 'n', "references"@[7] == 'c', "references"@[8] == 'e', "references"@[9] == 's',
        "related literature"@.len() == 18, "related literature"@[0] == 'r', "related literature"@[1] == 'e', "related literature"@[2] == 'l', "related literature"@[3] == 'a', "related literature"@[4] == 't', "related literature"@[5] == 'e', "related literature"@[6] == 'd', "related literature"@[7] == ' ', "related literature"@[8] == 'l', "related literature"@[9] == 'i', "related literature"@[10] == 't', "related literature"@[11] == 'e', "related literature"@[12] == 'r', "related literature"@[13] == 'a', "related literature"@[14] == 't', "related literature"@[15] == 'u', "related literature"@[16] == 'r', "related literature"@[17] == 'e',
        "related research"@.len() == 16, "related research"@[0] == 'r', "related research"@[1] == 'e', "related research"@[2] == 'l', "related research"@[3] == 'a', "related research"@[4] == 't', "related research"@[5] == 'e', "related research"@[6] == 'd', "related research"@[7] == ' ', "related research"@[8] == 'r', "related research"@[9] == 'e', "related research"@[10] == 's', "related research"@[11] == 'e', "related research"@[12] == 'a', "related research"@[13] == 'r', "related research"@[14] == 'c', "related research"@[15] == 'h',
        "related studies"@.len() == 15, "related studies"@[0] == 'r', "related studies"@[1] == 'e', "related studies"@[2] == 'l', "related studies"@[3] == 'a', "related studies"@[4] == 't', "related studies"@[5] == 'e', "related studies"@[6] == 'd', "related studies"@[7] == ' ', "related studies"@[8] == 's', "related studies"@[9] == 't', "related studies"@[10] == 'u', "related studies"@[11] == 'd', "related studies"@[12] == 'i', "related studies"@[13] == 'e', "related studies"@[14] == 's',
        "related work"@.len() == 12, "related work"@[0] == 'r', "related work"@[1] == 'e', "related work"@[2] == 'l', "related work"@[3] == 'a', "related work"@[4] == 't', "related work"@[5] == 'e', "related work"@[6] == 'd', "related work"@[7] == ' ', "related work"@[8] == 'w', "related work"@[9] == 'o', "related work"@[10] == 'r', "related work"@[11] == 'k',
        "remark"@.len() == 6, "remark"@[0] == 'r', "remark"@[1] == 'e', "remark"@[2] == 'm', "remark"@[3] == 'a', "remark"@[4] == 'r', "remark"@[5] == 'k',
        "remark "@.len() == 7, "remark "@[0] == 'r', "remark "@[1] == 'e', "remark "@[2] == 'm', "remark "@[3] == 'a', "remark "@[4] == 'r', "remark "@[5] == 'k', "remark "@[6] == ' ',
        "remarque"@.len() == 8, "remarque"@[0] == 'r', "remarque"@[1] == 'e', "remarque"@[2] == 'm', "remarque"@[3] == 'a', "remarque"@[4] == 'r', "remarque"@[5] == 'q', "remarque"@[6] == 'u', "remarque"@[7] == 'e',
        "result"@.len() == 6, "result"@[0] == 'r', "result"@[1] == 'e', "result"@[2] == 's', "result"@[3] == 'u', "result"@[4] == 'l', "result"@[5] == 't',
        "simulation"@.len() == 10, "simulation"@[0] == 's', "simulation"@[1] == 'i', "simulation"@[2] == 'm', "simulation"@[3] == 'u', "simulation"@[4] == 'l', "simulation"@[5] == 'a', "simulation"@[6] == 't', "simulation"@[7] == 'i', "simulation"@[8] == 'o', "simulation"@[9] == 'n',
        "simulation "@.len() == 11, "simulation "@[0] == 's', "simulation "@[1] == 'i', "simulation "@[2] == 'm', "simulation "@[3] == 'u', "simulation "@[4] == 'l', "simulation "@[5] == 'a', "simulation "@[6] == 't', "simulation "@[7] == 'i', "simulation "@[8] == 'o', "simulation "@[9] == 'n', "simulation "@[10] == ' ',
        "simulation result"@.len() == 17, "simulation result"@[0] == 's', "simulation result"@[1] == 'i', "simulation result"@[2] == 'm', "simulation result"@[3] == 'u', "simulation result"@[4] == 'l', "simulation result"@[5] == 'a', "simulation result"@[6] == 't', "simulation result"@[7] == 'i', "simulation result"@[8] == 'o', "simulation result"@[9] == 'n', "simulation result"@[10] == ' ', "simulation result"@[11] == 'r', "simulation result"@[12] == 'e', "simulation result"@[13] == 's', "simulation result"@[14] == 'u', "simulation result"@[15] == 'l', "simulation result"@[16] == 't',
        "step"@.len() == 4, "step"@[0] == 's', "step"@[1] == 't', "step"@[2] == 'e', "step"@[3] == 'p',
        "subject"@.len() == 7, "subject"@[0] == 's', "subject"@[1] == 'u', "subject"@[2] == 'b', "subject"@[3] == 'j', "subject"@[4] == 'e', "subject"@[5] == 'c', "subject"@[6] == 't',
        "subject headings"@.len() == 16, "subject headings"@[0] == 's', "subject headings"@[1] == 'u', "subject headings"@[2] == 'b', "subject headings"@[3] == 'j', "subject headings"@[4] == 'e', "subject headings"@[5] == 'c', "subject headings"@[6] == 't', "subject headings"@[7] == ' ', "subject headings"@[8] == 'h', "subject headings"@[9] == 'e', "subject headings"@[10] == 'a', "subject headings"@[11] == 'd', "subject headings"@[12] == 'i', "subject headings"@[13] == 'n', "subject headings"@[14] == 'g', "subject headings"@[15] == 's',
        "summary"@.len() == 7, "summary"@[0] == 's', "summary"@[1] == 'u', "summary"@[2] == 'm', "summary"@[3] == 'm', "summary"@[4] == 'a', "summary"@[5] == 'r', "summary"@[6] == 'y',
        "summary "@.len() == 8, "summary "@[0] == 's', "summary "@[1] == 'u', "summary "@[2] == 'm', "summary "@[3] == 'm', "summary "@[4] == 'a', "summary "@[5] == 'r', "summary "@[6] == 'y', "summary "@[7] == ' ',
        "theorem"@.len() == 7, "theorem"@[0] == 't', "theorem"@[1] == 'h', "theorem"@[2] == 'e', "theorem"@[3] == 'o', "theorem"@[4] == 'r', "theorem"@[5] == 'e', "theorem"@[6] == 'm',
        "theoretical background"@.len() == 22, "theoretical background"@[0] == 't', "theoretical background"@[1] == 'h', "theoretical background"@[2] == 'e', "theoretical background"@[3] == 'o', "theoretical background"@[4] == 'r', "theoretical background"@[5] == 'e', "theoretical background"@[6] == 't', "theoretical background"@[7] == 'i', "theoretical background"@[8] == 'c', "theoretical background"@[9] == 'a', "theoretical background"@[10] == 'l', "theoretical background"@[11] == ' ', "theoretical background"@[12] == 'b', "theoretical background"@[13] == 'a', "theoretical background"@[14] == 'c', "theoretical background"@[15] == 'k', "theoretical background"@[16] == 'g', "theoretical background"@[17] == 'r', "theoretical background"@[18] == 'o', "theoretical background"@[19] == 'u', "theoretical background"@[20] == 'n', "theoretical background"@[21] == 'd',
        "theory"@.len() == 6, "theory"@[0] == 't', "theory"@[1] == 'h', "theory"@[2] == 'e', "theory"@[3] == 'o', "theory"@[4] == 'r', "theory"@[5] == 'y',
{
    reveal_strlit(" analysis");
    reveal_strlit(" axiom");
    reveal_strlit(" conclusion");
    reveal_strlit(" condition");
    reveal_strlit(" conjecture");
    reveal_strlit(" contribution");
    reveal_strlit(" corollary");
    reveal_strlit(" definition");
    reveal_strlit(" demonstration");
    reveal_strlit(" description");
    reveal_strlit(" discussion");
    reveal_strlit(" example");
    reveal_strlit(" experiment");
    reveal_strlit(" hypothesis");
    reveal_strlit(" lemma");
    reveal_strlit(" method");
    reveal_strlit(" model");
    reveal_strlit(" motivation");
    reveal_strlit(" notation");
    reveal_strlit(" preliminaries");
    reveal_strlit(" problem");
    reveal_strlit(" proof");
    reveal_strlit(" properties");
    reveal_strlit(" property");
    reveal_strlit(" proposition");
    reveal_strlit(" question");
    reveal_strlit(" remark");
    reveal_strlit(" result");
    reveal_strlit(" simulation");
    reveal_strlit(" summary");
    reveal_strlit(" theorem");
    reveal_strlit("abstract");
    reveal_strlit("acknowledg");
    reveal_strlit("acknowledgement");
    reveal_strlit("aknowledg");
    reveal_strlit("analaysis");
    reveal_strlit("analyses");
    reveal_strlit("analysis");
    reveal_strlit("analysis ");
    reveal_strlit("appendi");
    reveal_strlit("appendix");
    reveal_strlit("application");
    reveal_strlit("assumption");
    reveal_strlit("axiom");
    reveal_strlit("background");
    reveal_strlit("background ");
    reveal_strlit("bibliography");
    reveal_strlit("caption");
    reveal_strlit("case");
    reveal_strlit("claim");
    reveal_strlit("concluding remarks");
    reveal_strlit("conclusion");
    reveal_strlit("condition");
    reveal_strlit("condition ");
    reveal_strlit("conjecture");
    reveal_strlit("contribution");
    reveal_strlit("contribution ");
    reveal_strlit("corollaire");
    reveal_strlit("corollary");
    reveal_strlit("data");
    reveal_strlit("dataset");
    reveal_strlit("definition");
    reveal_strlit("demonstration");
    reveal_strlit("demonstration ");
    reveal_strlit("description");
    reveal_strlit("discussion");
    reveal_strlit("dokazatelstvo");
    reveal_strlit("example");
    reveal_strlit("exemple");
    reveal_strlit("exercise");
    reveal_strlit("exercise ");
    reveal_strlit("experiment");
    reveal_strlit("fact");
    reveal_strlit("fact ");
    reveal_strlit("future");
    reveal_strlit("future work");
    reveal_strlit("hypotheses");
    reveal_strlit("hypothesis");
    reveal_strlit("implementation");
    reveal_strlit("implementation details");
    reveal_strlit("introduction");
    reveal_strlit("key word");
    reveal_strlit("keyword");
    reveal_strlit("keywords");
    reveal_strlit("lemma");
    reveal_strlit("lemme");
    reveal_strlit("literature review");
    reveal_strlit("mathematics subject classification");
    reveal_strlit("method");
    reveal_strlit("methods");
    reveal_strlit("model");
    reveal_strlit("motivation");
    reveal_strlit("motivation ");
    reveal_strlit("msc");
    reveal_strlit("notation");
    reveal_strlit("observation");
    reveal_strlit("other");
    reveal_strlit("preliminaries");
    reveal_strlit("preliminaries ");
    reveal_strlit("preliminary");
    reveal_strlit("previous work");
    reveal_strlit("prior work");
    reveal_strlit("problem");
    reveal_strlit("problem ");
    reveal_strlit("proof");
    reveal_strlit("properties");
    reveal_strlit("property");
    reveal_strlit("property ");
    reveal_strlit("proposition");
    reveal_strlit("question");
    reveal_strlit("question ");
    reveal_strlit("references");
    reveal_strlit("related literature");
    reveal_strlit("related research");
    reveal_strlit("related studies");
    reveal_strlit("related work");
    reveal_strlit("remark");
    reveal_strlit("remark ");
    reveal_strlit("remarque");
    reveal_strlit("result");
    reveal_strlit("simulation");
    reveal_strlit("simulation ");
    reveal_strlit("simulation result");
    reveal_strlit("step");
    reveal_strlit("subject");
    reveal_strlit("subject headings");
    reveal_strlit("summary");
    reveal_strlit("summary ");
    reveal_strlit("theorem");
    reveal_strlit("theoretical background");
    reveal_strlit("theory");
}
#[verifier::spinoff_prover] proof fn lemma_type_0() ensures title_type("conjecture"@) == "conjecture"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_1() ensures title_type("implementation"@) == "implementation"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_2() ensures title_type("subject"@) == "subject"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_3() ensures title_type("references"@) == "references"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_4() ensures title_type("related work"@) == "related work"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_5() ensures title_type("preliminaries"@) == "preliminaries"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_6() ensures title_type("analysis"@) == "analysis"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_7() ensures title_type("background"@) == "background"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_8() ensures title_type("example"@) == "example"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_9() ensures title_type("problem"@) == "problem"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_10() ensures title_type("demonstration"@) == "demonstration"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_11() ensures title_type("result"@) == "result"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_12() ensures title_type("simulation"@) == "simulation"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_13() ensures title_type("acknowledgement"@) == "acknowledgement"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_14() ensures title_type("proof"@) == "proof"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_15() ensures title_type("remark"@) == "remark"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_16() ensures title_type("experiment"@) == "experiment"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_17() ensures title_type("keywords"@) == "keywords"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_18() ensures title_type("introduction"@) == "introduction"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_19() ensures title_type("appendix"@) == "appendix"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_20() ensures title_type("notation"@) == "notation"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_21() ensures title_type("theorem"@) == "theorem"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_22() ensures title_type("lemma"@) == "lemma"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_23() ensures title_type("corollary"@) == "corollary"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_24() ensures title_type("proposition"@) == "proposition"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_25() ensures title_type("definition"@) == "definition"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_26() ensures title_type("axiom"@) == "axiom"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_27() ensures title_type("fact"@) == "fact"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_28() ensures title_type("question"@) == "question"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_29() ensures title_type("conclusion"@) == "conclusion"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_30() ensures title_type("summary"@) == "summary"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_31() ensures title_type("observation"@) == "observation"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_32() ensures title_type("model"@) == "model"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_33() ensures title_type("methods"@) == "methods"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_34() ensures title_type("future work"@) == "future work"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_35() ensures title_type("description"@) == "description"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_36() ensures title_type("discussion"@) == "discussion"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_37() ensures title_type("property"@) == "property"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_38() ensures title_type("condition"@) == "condition"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_39() ensures title_type("contribution"@) == "contribution"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_40() ensures title_type("motivation"@) == "motivation"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_41() ensures title_type("abstract"@) == "abstract"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_42() ensures title_type("application"@) == "application"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_43() ensures title_type("assumption"@) == "assumption"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_44() ensures title_type("case"@) == "case"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_45() ensures title_type("claim"@) == "claim"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_46() ensures title_type("caption"@) == "caption"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_47() ensures title_type("data"@) == "data"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_48() ensures title_type("dataset"@) == "dataset"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_49() ensures title_type("step"@) == "step"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_50() ensures title_type("theory"@) == "theory"@ { lemma_lits(); }
#[verifier::spinoff_prover] proof fn lemma_type_51() ensures title_type("other"@) == "other"@ { lemma_lits(); }
proof fn lemma_types(s: Seq<char>) requires is_type(s) ensures title_type(s) == s, s.len() > 0 {
    lemma_lits();
    lemma_type_0();
    lemma_type_1();
    lemma_type_2();
    lemma_type_3();
    lemma_type_4();
    lemma_type_5();
    lemma_type_6();
    lemma_type_7();
    lemma_type_8();
    lemma_type_9();
    lemma_type_10();
    lemma_type_11();
    lemma_type_12();
    lemma_type_13();
    lemma_type_14();
    lemma_type_15();
    lemma_type_16();
    lemma_type_17();
    lemma_type_18();
    lemma_type_19();
    lemma_type_20();
    lemma_type_21();
    lemma_type_22();
    lemma_type_23();
    lemma_type_24();
    lemma_type_25();
    lemma_type_26();
    lemma_type_27();
    lemma_type_28();
    lemma_type_29();
    lemma_type_30();
    lemma_type_31();
    lemma_type_32();
    lemma_type_33();
    lemma_type_34();
    lemma_type_35();
    lemma_type_36();
    lemma_type_37();
    lemma_type_38();
    lemma_type_39();
    lemma_type_40();
    lemma_type_41();
    lemma_type_42();
    lemma_type_43();
    lemma_type_44();
    lemma_type_45();
    lemma_type_46();
    lemma_type_47();
    lemma_type_48();
    lemma_type_49();
    lemma_type_50();
    lemma_type_51();
}
#[verifier::spinoff_prover] proof fn lemma_methods() ensures heading_norm("methods"@) == "methods"@, is_type("methods"@)
{ lemma_lits(); axiom_types_kept("methods"@); reveal_strlit("method"); assert("method"@.len() == 6 && "method"@[0] == 'm' && "method"@[1] == 'e' && "method"@[2] == 't' && "method"@[3] == 'h' && "method"@[4] == 'o' && "method"@[5] == 'd'); assert("method"@.take(6) =~= "method"@); assert(title_type("method"@) == "methods"@); assert(heading_norm("method"@) == "methods"@); assert("method"@ != "methods"@); }
proof fn lemma_name_kept(s: Seq<char>) requires is_type(s) ensures heading_norm(s) == s { lemma_types(s); axiom_types_kept(s); lemma_methods(); }
proof fn lemma_type_of(s: Seq<char>) ensures title_type(s) == s || is_type(title_type(s)) || title_type(s).len() == 0 { reveal_strlit(""); }
proof fn lemma_norm_kinds(s: Seq<char>)
    ensures heading_norm(heading_norm(s)) == heading_norm(s)
    decreases s.len()
{
    lemma_stripped(s); let t = stripped(s); let r = heading_norm(s); axiom_types_kept(r);
    if t.len() == 0 { assert(r =~= Seq::empty()); }
    else if t != s { lemma_norm_kinds(t); }
    else { lemma_type_of(s); if is_type(r) { lemma_name_kept(r); } else if r.len() == 0 { assert(r =~= Seq::empty()); } }
}
