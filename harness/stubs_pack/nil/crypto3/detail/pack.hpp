// stand-in: the real header lives in another repository and nothing under test calls into it
