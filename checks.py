"""The registered checks: harness sources in harness/, one binary each."""
CHECKS = {
    "C01": {"harnesses": [{"name": "c01_codegen"}]},
    "C03": {"harnesses": [{"name": "c03_models"}]},
    "C04": {"harnesses": [{"name": "c04_directional"}]},
    "C05": {"harnesses": [{"name": "c05_sparsity"}]},
    "C06": {"harnesses": [{"name": "c06_loops"}]},
    "C02": {"harnesses": [{"name": "c02_arithmetic"}]},
    "C08": {"harnesses": [{"name": "c08_evaluator"}]},
    "C10": {"harnesses": [{"name": "c10_atomics"}]},
    "C14": {"harnesses": [{"name": "c14_containers"}]},
    "C15": {"harnesses": [{"name": "c15_sparsity"}]},
    "C19": {"harnesses": [{"name": "c19_graph"}]},
    "C09": {"harnesses": [{"name": "c09_solver"}]},
    "C11": {"harnesses": [{"name": "c11_repeat"}]},
    "C18": {"harnesses": [{"name": "c18_formats"}]},
    "C13": {"harnesses": [{"name": "c13_dae"}]},
    "C07": {"harnesses": [{"name": "c07_index_patterns"}]},
}
