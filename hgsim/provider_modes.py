MODES = ('typical', 'typical', 'edges', 'small', 'repeat', 'alternate')
