from vlib import run_check
import measures

if __name__ == "__main__":
    run_check("C06", "model_checking", lambda ck: measures.body(ck, True))
