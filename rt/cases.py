from rt import cases_train, cases_select, cases_misc, cases_files  # noqa
