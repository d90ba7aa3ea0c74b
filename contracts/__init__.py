MODULES = ['signature', 'tone', 'note', 'track', 'chord', 'processing', 'rep', 'midi_w', 'midi_d', 'midi_r', 'midi_l', 'roundtrip']


def load_all():
    import importlib
    for m in MODULES: importlib.import_module('contracts.' + m)
