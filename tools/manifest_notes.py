na_reasons = {}
