from . import tqdm
