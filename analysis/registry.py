import purity, gfmprops, htmlprops, cliprops
CHECKS = {'C05': purity.check, 'C03': gfmprops.panics, 'C04': gfmprops.termination, 'C15': gfmprops.text, 'C13': gfmprops.content, 'C12': gfmprops.balance,
          'C01': htmlprops.injection, 'C02': htmlprops.schemes, 'C14': htmlprops.once,
          'C06': cliprops.complete, 'C07': cliprops.status, 'C08': cliprops.confined, 'C09': cliprops.keepconfig,
          'C10': cliprops.roundtrip, 'C11': cliprops.tempfile, 'C17': cliprops.configfirst, 'C19': cliprops.source}
