""" The checks, by property. """
