""" Static analysis of asta. """
