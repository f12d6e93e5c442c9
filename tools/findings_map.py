M = {'24cbd32': 'C07', '42d82b1': 'C11', '52f54d0': 'C11', '418be6b': 'C12', '19d41a8': 'C13', 'ced9b68': 'C13', 'c04cc72': 'C14', '29878ab': 'C13', '42c01fc': 'C14', '4043b5e': 'C09', '57de5c8': 'C16', '37f379f': 'C17', '157cf2c': 'C17', 'c92fc26': 'C17', '5c21d7b': 'C17', 'ecc9b35': 'C18', '30322da': 'C18', '7f0a147': 'C18', '9cac1f5': 'C19', '099bfae': 'C19', 'fad7e62': 'C19', '34a67e6': 'C01', 'e6e6496': 'C13', '7b1a20e': 'C12', '71627b4': 'C06', 'd58f863': 'C06', 'd5774c6': 'C06', '8536402': 'C09'}
