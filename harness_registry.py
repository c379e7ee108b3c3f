MODULES = {
    'C01': 'harness.c01_text',
    'C02': 'harness.c02_tags',
    'C03': 'harness.c03_preserve',
    'C04': 'harness.c04_matching',
    'C05': 'harness.c05_search',
    'C06': 'harness.c06_extend',
    'C07': 'harness.c07_segmentation',
    'C08': 'harness.c08_line_numbers',
    'C09': 'harness.c09_jats',
    'C10': 'harness.c10_download',
    'C11': 'harness.c11_pipeline',
    'C12': 'harness.c12_checks',
    'C13': 'harness.c13_post',
    'C14': 'harness.c14_options',
    'C15': 'harness.c15_repair',
    'C16': 'harness.c16_targets',
    'C17': 'harness.c17_models',
}
